// Entry points to the resource arbiter and the commands it judges (analysed, never run).
#include "CommandImpl.hh"
#include "Constant.hh"
#include "ExprVec.hh"
#include "ExpressionListener.hh"
#include "State.hh"
#include "Value.hh"
#include "LinkedQueue.hh"
#include "ResourceArbiterInterface.hh"
#include <istream>

namespace witness
{
  using namespace PLEXIL;

  ResourceArbiterInterface *ra_new() { return makeResourceArbiter(); }
  bool ra_read(ResourceArbiterInterface *a, std::istream &s) { return a->readResourceHierarchy(s); }
  Expression *ra_int(Integer v) { return new Constant<Integer>(v); }
  Expression *ra_real(Real v) { return new Constant<Real>(v); }
  Expression *ra_bool(Boolean v) { return new Constant<Boolean>(v); }
  Expression *ra_text(String const &v) { return new Constant<String>(v); }
  ResourceSpecList *ra_specs(size_t n) { return new ResourceSpecList(n); }
  void ra_spec(ResourceSpecList *l, size_t i, Expression *name, Expression *prio, Expression *upper, Expression *release)
  {
    ResourceSpec &s = (*l)[i];
    s.setNameExpression(name, true);
    s.setPriorityExpression(prio, true);
    if (upper)
      s.setUpperBoundExpression(upper, true);
    if (release)
      s.setReleaseAtTerminationExpression(release, true);
  }
  CommandImpl *ra_cmd(Expression *name, ResourceSpecList *l)
  {
    CommandImpl *c = new CommandImpl("c");
    c->setNameExpr(name, true);
    if (l)
      c->setResourceList(l);
    return c;
  }
  void ra_on(CommandImpl *c) { c->activate(); }
  void ra_fix(CommandImpl *c) { c->fixValues(); }
  void ra_off(CommandImpl *c, ResourceArbiterInterface *a) { c->deactivate(a); }
  void ra_handle(CommandImpl *c, CommandHandleValue h) { c->setCommandHandle(h); }
  LinkedQueue<CommandImpl> *ra_queue() { return new LinkedQueue<CommandImpl>(); }
  void ra_push(LinkedQueue<CommandImpl> *q, CommandImpl *c) { q->push(c); }
  CommandImpl *ra_front(LinkedQueue<CommandImpl> *q) { return q->front(); }
  void ra_pop(LinkedQueue<CommandImpl> *q) { q->pop(); }
  void ra_arbitrate(ResourceArbiterInterface *a, LinkedQueue<CommandImpl> *q, LinkedQueue<CommandImpl> *y, LinkedQueue<CommandImpl> *n)
  {
    a->arbitrateCommands(*q, *y, *n);
  }

  int cm_handle(CommandImpl *c) { return (int) c->getCommandHandle(); }
  int cm_ack(CommandImpl *c)
  {
    CommandHandleValue h;
    return c->getAck()->getValue(h) ? (int) h : -1;
  }
  int cm_known(CommandImpl *c)
  {
    Boolean b;
    return c->getCommandHandleKnownFn()->getValue(b) ? (int) b : -1;
  }
  int cm_abort(CommandImpl *c)
  {
    Boolean b;
    return c->getAbortComplete()->getValue(b) ? (int) b : -1;
  }
  void cm_listen(CommandImpl *c, ExpressionListener *ack, ExpressionListener *known, ExpressionListener *abort)
  {
    c->getAck()->addListener(ack);
    c->getCommandHandleKnownFn()->addListener(known);
    c->getAbortComplete()->addListener(abort);
  }
  void cm_fnon(CommandImpl *c) { c->getCommandHandleKnownFn()->activate(); }
  void cm_fnoff(CommandImpl *c) { c->getCommandHandleKnownFn()->deactivate(); }
  void cm_report(Command *c, CommandHandleValue h) { commandHandleReturn(c, h); }
  void cm_return(Command *c, Value const &v) { commandReturn(c, v); }
  void cm_aborted(Command *c, bool b) { commandAbortAcknowledge(c, b); }
  void cm_dest(CommandImpl *c, Expression *d) { c->setDestination(d, false); }
  void cm_name(CommandImpl *c, Expression *n) { c->setNameExpr(n, false); }
  ExprVec *cm_vec(size_t n) { return makeExprVec(n); }
  void cm_arg(ExprVec *v, size_t i, Expression *e) { v->setArgument(i, e, false); }
  void cm_args(CommandImpl *c, ExprVec *v) { c->setArgumentVector(v); }
  State const *cm_command(CommandImpl *c) { return &c->getCommand(); }
  bool cm_wants(CommandImpl *c) { return c->isReturnExpected(); }
}
