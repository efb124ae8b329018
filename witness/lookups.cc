// Entry points to the state cache and the expressions it serves (analysed, never run).
#include "Dispatcher.hh"
#include "Lookup.hh"
#include "LookupReceiver.hh"
#include "Message.hh"
#include "State.hh"
#include "StateCache.hh"
#include "StateCacheEntry.hh"
#include "Value.hh"
#include "Expression.hh"
#include "ExprVec.hh"
#include "Constant.hh"

namespace witness
{
  using namespace PLEXIL;

  StateCache *sc_instance() { return &StateCache::instance(); }
  void sc_return(State const &s, Value const &v) { StateCache::instance().lookupReturn(s, v); }
  void sc_return1(std::string const &n, Value const &v) { StateCache::instance().lookupReturn(State(n), v); }
  void sc_return2(std::string const &n, Value const &p, Value const &v) { StateCache::instance().lookupReturn(State(n, p), v); }
  LookupReceiver *sc_receiver(State const &s) { return StateCache::instance().getLookupReceiver(s); }
  void sc_cycle() { StateCache::instance().incrementCycleCount(); }
  void sc_message(Message const *m) { StateCache::instance().messageReceived(m); }
  void sc_empty() { StateCache::instance().messageQueueEmpty(); }
  void sc_assign(Message *m, std::string const &h) { StateCache::instance().assignMessageHandle(m, h); }
  void sc_release(std::string const &h) { StateCache::instance().releaseMessageHandle(h); }
  Message *sc_msg(State const &s, std::string const &from, double t) { return new Message(s, from, t); }
  bool sc_has(State const &s) { return StateCache::instance().ensureStateCacheEntry(s)->hasRegisteredLookups(); }
  void rc_update(LookupReceiver *r, Value const &v) { r->update(v); }
  void rc_unknown(LookupReceiver *r) { r->setUnknown(); }
  ValueType lk_type(Expression const *e) { return e->valueType(); }
  void lk_delete(Expression *e) { delete e; }
  Expression *lk_new(Expression *name, ValueType t, ExprVec *v) { return makeLookup(name, false, t, v); }
  Expression *lk_change(Expression *name, ValueType t, Expression *tol, ExprVec *v)
  {
    return makeLookupOnChange(name, false, t, tol, false, v);
  }
  Expression *lk_const(String const &s) { return new Constant<String>(s); }
  double sc_now() { return StateCache::currentTime(); }
  double sc_query() { return StateCache::queryTime(); }
}
