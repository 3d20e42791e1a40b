#include <iterator>
#include <list>
#include <vector>

#include <sse/schemes/utils/concat_iterator.hpp>

template class sse::utility::concat_iterator<std::vector<unsigned long>>;
template class sse::utility::concat_iterator<std::list<unsigned long>>;
template class sse::utility::concat_const_iterator<std::vector<unsigned long>>;
template class sse::utility::concat_const_iterator<std::list<unsigned long>>;
