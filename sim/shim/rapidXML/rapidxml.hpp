// stator/xml.hpp includes rapidXML, which is not part of the repository; boost ships the same parser under another namespace.
#pragma once
#define BOOST_PROPERTY_TREE_RAPIDXML_STATIC_POOL_SIZE (1024)
#define BOOST_PROPERTY_TREE_RAPIDXML_DYNAMIC_POOL_SIZE (1024)
#include <boost/property_tree/detail/rapidxml.hpp>
namespace rapidxml { using namespace boost::property_tree::detail::rapidxml; }
