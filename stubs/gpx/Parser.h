// Declaration-only stand-in for gpxlib (not installed here), see csv.hpp.
#pragma once
#include <istream>
#include <list>
#include <string>
namespace gpx {
class Node { public: const std::string &getValue() const; };
class WPT { public: Node &time(); Node &lat(); Node &lon(); Node &name(); };
template<class T> class List { public: std::list<T *> &list(); };
class TRKSeg { public: List<WPT> &trkpts(); };
class TRK { public: Node &name(); List<TRKSeg> &trksegs(); };
class Metadata { public: Node &name(); };
class GPX { public: List<TRK> &trks(); Metadata &metadata(); };
class ReportXML;
class Parser { public: explicit Parser(void *); GPX *parse(std::istream &); std::string errorText(); int errorLineNumber(); int errorColumnNumber(); };
}
