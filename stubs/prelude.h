// Force-included before every translation unit: boost here may predate the
// in-class serialization support of the flat containers; declaration only.
#pragma once
#include <boost/version.hpp>
#include <boost/unordered/unordered_flat_map.hpp>
#include <boost/unordered/unordered_flat_set.hpp>
namespace boost { namespace serialization {
template<class Archive, class K, class V, class H, class E, class A>
void serialize(Archive &, boost::unordered_flat_map<K, V, H, E, A> &, const unsigned int);
template<class Archive, class K, class H, class E, class A>
void serialize(Archive &, boost::unordered_flat_set<K, H, E, A> &, const unsigned int);
}}
