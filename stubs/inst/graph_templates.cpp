// Instantiates the member templates of GraphCache so that the analysis sees their bodies.
#include <functional>
#include "rmw_dds_common/graph_cache.hpp"

void instantiate_graph_templates(rmw_dds_common::GraphCache & cache, const std::function<void()> & f)
{
  cache.set_on_change_callback(f);
  cache.set_on_change_callback([f]() {f();});
}
