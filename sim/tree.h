// Histories of edits on XML trees, judged against a small model of a tree.
#pragma once
#include "scen.h"
#include "ezxml/ezxml.h"
struct TAttr { int id; std::string name, value; };
struct TNode { int up = -1; bool pi = false; std::string name, text; std::vector<TAttr> at; std::vector<int> kids; };
struct TDecl { bool eleven = false, has = false, alone = false, dtd = false; std::string dtdv; };      // what stands before the root
struct TreeModel { std::map<int, TNode> n; int root = -1, next = 1; TDecl decl; };
struct TreeHandle { ezxml::XElementPtr p; int node; }; struct TreeAHandle { ezxml::XAttributePtr p; int node, attr; };
struct TreeDoc { int dtds = 0; bool hidden = false;     // loaded from bytes with instructions or sections that texts may contain
    ezxml::XDocPtr d; TreeModel m; bool ok = false; std::vector<TreeHandle> h; std::vector<TreeAHandle> a; std::string bytes; };
struct TreeState { TreeDoc d[8]; };
std::string treeOp(TreeState&, const Op&, const std::string& dir);      // under the code under test; what was wrong with the answer, or ""
std::string treeActual(TreeState&, const Op&);                          // under the code under test: the tree as its handles show it
std::string treeExpected(TreeState&, const Op&);                        // the tree as the model has it
bool treeLive(TreeState&, const Op&); void treeClear(TreeState&);
