#include <sse/schemes/utils/thread_pool.hpp>

namespace vp_inst {
int  work(int a);
void thread_pool(ThreadPool& p)
{
    auto l = [](int v) { return v + 1; };
    p.enqueue(work, 3);
    p.enqueue([]() {});
    p.enqueue(l, 4);
    ThreadPool q(2);
    q.join();
}
} // namespace vp_inst
