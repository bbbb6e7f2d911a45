#pragma once
#include "scen.h"
#include "ezxml/ezxml.h"
#include "mx/core/Document.h"
struct DomIter { ezxml::XElementIterator it, end; }; struct DomAIter { ezxml::XAttributeIterator it, end; };
struct DomDoc { ezxml::XDocPtr d; std::string spec; bool loaded = false, released = false, changed = false; int of = -1; std::vector<ezxml::XElementPtr> e; std::vector<ezxml::XAttributePtr> a; std::vector<DomIter> ei; std::vector<DomAIter> ai; };
struct DomState { DomDoc d[8]; };
struct DomResult { bool threw; std::string ex; std::string bad; };
std::string domOp(DomState&, const Op&); void domClear(DomState&);   // returns what was wrong with the answer, or ""
void walkConst(const mx::core::Document& d, int sel);
