// Entry points to what the plan parser builds (analysed, never run).
#include "Expression.hh"
#include "Function.hh"
#include "Assignable.hh"
#include "Assignment.hh"
#include "AssignmentNode.hh"
#include "CommandImpl.hh"
#include "CommandNode.hh"
#include "NodeImpl.hh"
#include "UpdateImpl.hh"
#include "UpdateNode.hh"

namespace witness
{
  using namespace PLEXIL;

  Expression const *pl_arg(Expression const *e, unsigned long i) { return (*static_cast<Function const *>(e))[i]; }
  unsigned long pl_nargs(Expression const *e) { return static_cast<Function const *>(e)->size(); }
  ValueType pl_type(Expression const *e) { return e->valueType(); }

  Expression *pl_cond(NodeImpl const *n, unsigned long i) { return const_cast<Expression *>(n->getCondition(i)); }
  void pl_delnode(NodeImpl *n) { delete n; }
  NodeImpl *pl_kid(NodeImpl *n, unsigned long i) { return n->getChildren()[i].get(); }
  CommandImpl *pl_command(NodeImpl *n) { return static_cast<CommandNode *>(n)->getCommand(); }
  UpdateImpl *pl_update(NodeImpl *n) { return static_cast<UpdateNode *>(n)->getUpdate(); }
  void pl_upon(UpdateImpl *u) { u->activate(); }
  void pl_upack(UpdateImpl *u, bool b) { u->acknowledge(b); }
  Assignment *pl_assign(NodeImpl *n) { return static_cast<AssignmentNode *>(n)->getAssignment(); }
  Expression *pl_local(NodeImpl *n, char const *name) { return n->findLocalVariable(name); }
  Expression *pl_find(NodeImpl *n, char const *name) { return n->findVariable(name); }
  void pl_actvars(NodeImpl *n) { for (ExpressionPtr const &v : *n->getLocalVariables()) v->activate(); }
  char const *pl_name(Expression const *e) { return e->getName(); }
  bool pl_assignable(Expression const *e) { return e->isAssignable(); }
  Assignable *pl_as(Expression *e) { return e->asAssignable(); }
  Assignable const *pl_cas(Expression const *e) { return e->asAssignable(); }
  Assignable *pl_dest(Assignment *a) { return a->getDest(); }
  Expression *pl_cdest(CommandImpl *c) { return c->getDest(); }
  Variable *pl_base(Expression *e) { return e->asAssignable()->getBaseVariable(); }
  void pl_changed(NodeImpl *n) { n->publishChange(); }
}
