// Listener hub and handler registry driven through their public members (analysed, never run).
#include "AdapterConfiguration.hh"
#include "AdapterExecInterface.hh"
#include "Command.hh"
#include "CommandHandler.hh"
#include "Dispatcher.hh"
#include "ExecListener.hh"
#include "ExecListenerFilter.hh"
#include "ExecListenerHub.hh"
#include "InterfaceAdapter.hh"
#include "LookupHandler.hh"
#include "LookupReceiver.hh"
#include "NodeTransition.hh"
#include "Update.hh"
#include "pugixml.hpp"
#include <string>
#include <vector>

namespace witness
{
  using namespace PLEXIL;

  // defined nowhere: the analysis records the calls and decides the answers
  void rec_transition(void const *who, NodeTransition const *t);
  void rec_plan(void const *who, void const *xml);
  void rec_library(void const *who, void const *xml);
  void rec_assign(void const *who, Expression const *e, std::string const &name, Value const &v);
  bool ask_transition(void const *who, NodeTransition const *t);
  bool ask_plan(void const *who, void const *xml);
  bool ask_library(void const *who, void const *xml);
  bool ask_assign(void const *who, Expression const *e, std::string const &name, Value const &v);
  bool ask_initialize(void const *who);
  bool ask_start(void const *who);
  void rec_stop(void const *who);

  class Rec final : public ExecListener
  {
  public:
    Rec() : ExecListener() {}
    Rec(pugi::xml_node const x) : ExecListener(x) {}
  protected:
    void implementNotifyNodeTransition(NodeTransition const &t) const override { rec_transition(this, &t); }
    void implementNotifyAddPlan(pugi::xml_node const x) const override { rec_plan(this, &x); }
    void implementNotifyAddLibrary(pugi::xml_node const x) const override { rec_library(this, &x); }
    void implementNotifyAssignment(Expression const *e, std::string const &n, Value const &v) const override { rec_assign(this, e, n, v); }
  };

  class Start final : public ExecListener
  {
  public:
    Start() : ExecListener() {}
    bool initialize() override { return ask_initialize(this); }
    bool start() override { return ask_start(this); }
    void stop() override { rec_stop(this); }
  };

  class Filt final : public ExecListenerFilter
  {
  public:
    Filt() : ExecListenerFilter() {}
    bool reportNodeTransition(NodeTransition const &t) override { return ask_transition(this, &t); }
    bool reportAddPlan(pugi::xml_node const x) override { return ask_plan(this, &x); }
    bool reportAddLibrary(pugi::xml_node const x) override { return ask_library(this, &x); }
    bool reportAssignment(Expression const *e, std::string const &n, Value const &v) override { return ask_assign(this, e, n, v); }
  };

  ExecListenerHub *hub_new() { return new ExecListenerHub(); }
  ExecListener *hub_listener() { return new Rec(); }
  ExecListener *hub_listenerXml(pugi::xml_node const x) { return new Rec(x); }
  ExecListener *hub_starter() { return new Start(); }
  ExecListenerFilter *hub_filter(ExecListener *l)
  {
    Filt *f = new Filt();
    l->setFilter(f);
    return f;
  }
  void hub_add(ExecListenerHub *h, ExecListener *l) { h->addListener(l); }
  void hub_transitions1(ExecListenerHub *h, NodeTransition const &a)
  {
    std::vector<NodeTransition> v;
    v.push_back(a);
    static_cast<ExecListenerBase *>(h)->notifyOfTransitions(v);
  }
  void hub_transitions2(ExecListenerHub *h, NodeTransition const &a, NodeTransition const &b)
  {
    std::vector<NodeTransition> v;
    v.push_back(a);
    v.push_back(b);
    static_cast<ExecListenerBase *>(h)->notifyOfTransitions(v);
  }
  void hub_assign(ExecListenerHub *h, Expression const *e, std::string const &n, Value const &v) { static_cast<ExecListenerBase *>(h)->notifyOfAssignment(e, n, v); }
  void hub_plan(ExecListenerHub *h, pugi::xml_node const x) { h->notifyOfAddPlan(x); }
  void hub_library(ExecListenerHub *h, pugi::xml_node const x) { h->notifyOfAddLibrary(x); }
  void hub_step(ExecListenerHub *h) { static_cast<ExecListenerBase *>(h)->stepComplete(1); }
  bool hub_initialize(ExecListenerHub *h) { return h->initialize(); }
  bool hub_start(ExecListenerHub *h) { return h->start(); }
  void hub_stop(ExecListenerHub *h) { h->stop(); }

  class Adapter final : public InterfaceAdapter
  {
  public:
    Adapter(AdapterExecInterface &i) : InterfaceAdapter(i, nullptr) {}
    bool initialize(AdapterConfiguration *) override { return ask_initialize(this); }
    bool start() override { return ask_start(this); }
    void stop() override { rec_stop(this); }
  };
  InterfaceAdapter *ac_adapter(AdapterExecInterface &i) { return new Adapter(i); }
  void ac_addAdapter(AdapterConfiguration *c, InterfaceAdapter *a) { c->addInterfaceAdapter(a); }

  void rec_execute(void const *who, Command *c, AdapterExecInterface *i);
  void rec_abort(void const *who, Command *c, AdapterExecInterface *i);
  void rec_lookup(void const *who, State const &s, LookupReceiver *r);
  void rec_thresholdsR(void const *who, State const &s, Real hi, Real lo);
  void rec_thresholdsI(void const *who, State const &s, Integer hi, Integer lo);
  void rec_clear(void const *who, State const &s);
  void rec_update(Update *u, AdapterExecInterface *i);

  struct CmdH final : public CommandHandler
  {
    void executeCommand(Command *c, AdapterExecInterface *i) override { rec_execute(this, c, i); }
    void abortCommand(Command *c, AdapterExecInterface *i) override { rec_abort(this, c, i); }
  };
  struct LookH final : public LookupHandler
  {
    void lookupNow(State const &s, LookupReceiver *r) override { rec_lookup(this, s, r); }
    void setThresholds(State const &s, Real hi, Real lo) override { rec_thresholdsR(this, s, hi, lo); }
    void setThresholds(State const &s, Integer hi, Integer lo) override { rec_thresholdsI(this, s, hi, lo); }
    void clearThresholds(State const &s) override { rec_clear(this, s); }
  };

  static void fn_execute(Command *c, AdapterExecInterface *i) { rec_execute(nullptr, c, i); }
  static void fn_abort(Command *c, AdapterExecInterface *i) { rec_abort(nullptr, c, i); }
  static void fn_lookup(State const &s, LookupReceiver *r) { rec_lookup(nullptr, s, r); }
  static void fn_thresholdsR(State const &s, Real hi, Real lo) { rec_thresholdsR(nullptr, s, hi, lo); }
  static void fn_thresholdsI(State const &s, Integer hi, Integer lo) { rec_thresholdsI(nullptr, s, hi, lo); }
  static void fn_clear(State const &s) { rec_clear(nullptr, s); }
  static void fn_update(Update *u, AdapterExecInterface *i) { rec_update(u, i); }

  AdapterConfiguration *ac_new() { return makeAdapterConfiguration(); }
  bool ac_construct(AdapterConfiguration *c, InterfaceManager &m, ExecListenerHub &h) { return c->constructInterfaces(pugi::xml_node(), m, h); }
  bool ac_constructXml(AdapterConfiguration *c, pugi::xml_node const &x, InterfaceManager &m, ExecListenerHub &h) { return c->constructInterfaces(x, m, h); }
  bool hub_initListener(ExecListener *l) { return l->initialize(); }
  bool ac_initialize(AdapterConfiguration *c) { return c->initialize(); }
  bool ac_start(AdapterConfiguration *c) { return c->start(); }
  void ac_stop(AdapterConfiguration *c) { c->stop(); }
  CommandHandler *ac_cmdHandler() { return new CmdH(); }
  LookupHandler *ac_lookHandler() { return new LookH(); }
  void ac_cmd(AdapterConfiguration *c, CommandHandler *h, std::string const &n) { c->registerCommandHandler(CommandHandlerPtr(h), n); }
  void ac_cmds(AdapterConfiguration *c, CommandHandler *h, std::string const &n, std::string const &m)
  {
    std::vector<std::string> v;
    v.push_back(n);
    v.push_back(m);
    c->registerCommandHandler(CommandHandlerPtr(h), v);
  }
  void ac_cmdFn(AdapterConfiguration *c, std::string const &n) { c->registerCommandHandlerFunction(n, fn_execute, fn_abort); }
  void ac_cmdFnOnly(AdapterConfiguration *c, std::string const &n) { c->registerCommandHandlerFunction(n, fn_execute); }
  void ac_cmdFnNull(AdapterConfiguration *c, std::string const &n) { c->registerCommandHandlerFunction(n, fn_execute, AbortCommandHandler()); }
  void ac_cmdDefault(AdapterConfiguration *c, CommandHandler *h) { c->setDefaultCommandHandler(CommandHandlerPtr(h)); }
  void ac_cmdDefaultFn(AdapterConfiguration *c) { c->setDefaultCommandHandlerFunction(fn_execute, fn_abort); }
  void ac_look(AdapterConfiguration *c, LookupHandler *h, std::string const &n) { c->registerLookupHandler(LookupHandlerPtr(h), n); }
  void ac_looks(AdapterConfiguration *c, LookupHandler *h, std::string const &n, std::string const &m)
  {
    std::vector<std::string> v;
    v.push_back(n);
    v.push_back(m);
    c->registerLookupHandler(LookupHandlerPtr(h), v);
  }
  void ac_lookFn(AdapterConfiguration *c, std::string const &n) { c->registerLookupHandlerFunction(n, fn_lookup, fn_thresholdsR, fn_thresholdsI, fn_clear); }
  void ac_lookFnOnly(AdapterConfiguration *c, std::string const &n) { c->registerLookupHandlerFunction(n, fn_lookup); }
  void ac_lookDefault(AdapterConfiguration *c, LookupHandler *h) { c->setDefaultLookupHandler(LookupHandlerPtr(h)); }
  void ac_lookDefaultFn(AdapterConfiguration *c) { c->setDefaultLookupHandler(fn_lookup, fn_thresholdsR, fn_thresholdsI, fn_clear); }
  void ac_updateFn(AdapterConfiguration *c) { c->registerPlannerUpdateHandler(fn_update); }

  void ac_execute(Dispatcher *d, Command *c) { d->executeCommand(c); }
  void ac_abort(Dispatcher *d, Command *c) { d->invokeAbort(c); }
  void ac_deny(Dispatcher *d, Command *c) { d->reportCommandArbitrationFailure(c); }
  void ac_lookupNow(Dispatcher *d, State const &s, LookupReceiver *r) { d->lookupNow(s, r); }
  void ac_setR(Dispatcher *d, State const &s, Real hi, Real lo) { d->setThresholds(s, hi, lo); }
  void ac_setI(Dispatcher *d, State const &s, Integer hi, Integer lo) { d->setThresholds(s, hi, lo); }
  void ac_clear(Dispatcher *d, State const &s) { d->clearThresholds(s); }
  void ac_update(Dispatcher *d, Update *u) { d->executeUpdate(u); }
  Dispatcher *ac_dispatcher(AdapterConfiguration *c) { return c; }
}
