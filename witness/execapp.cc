// Entry points of the application object (analysed, never run).
#include "ExecApplication.hh"
#include "pugixml.hpp"

namespace witness
{
  using namespace PLEXIL;

  ExecApplication *ax_new() { return makeExecApplication(); }
  void ax_delete(ExecApplication *a) { delete a; }
  bool ax_initialize(ExecApplication *a, pugi::xml_node const &x) { return a->initialize(x); }
  bool ax_startInterfaces(ExecApplication *a) { return a->startInterfaces(); }
  bool ax_step(ExecApplication *a) { return a->step(); }
  void ax_runExec(ExecApplication *a) { a->runExec(); }
  bool ax_run(ExecApplication *a) { return a->run(); }
  bool ax_suspend(ExecApplication *a) { return a->suspend(); }
  bool ax_isSuspended(ExecApplication *a) { return a->isSuspended(); }
  bool ax_resume(ExecApplication *a) { return a->resume(); }
  void ax_stop(ExecApplication *a) { a->stop(); }
  void ax_terminate(ExecApplication *a) { a->terminate(); }
  void ax_notifyExec(ExecApplication *a) { a->notifyExec(); }
  void ax_notifyAndWait(ExecApplication *a) { a->notifyAndWaitForCompletion(); }
  void ax_waitPlan(ExecApplication *a) { a->waitForPlanFinished(); }
  void ax_waitShutdown(ExecApplication *a) { a->waitForShutdown(); }
  bool ax_allFinished(ExecApplication *a) { return a->allPlansFinished(); }
  bool ax_addLibrary(ExecApplication *a, pugi::xml_document *d) { return a->addLibrary(d); }
  bool ax_loadLibrary(ExecApplication *a, std::string const &n) { return a->loadLibrary(n); }
  bool ax_addPlan(ExecApplication *a, pugi::xml_document *d) { return a->addPlan(d); }
  void ax_mark(ExecApplication *a, unsigned int n) { a->markProcessed(n); }
  void ax_bkgnd(ExecApplication *a, bool b) { a->setRunExecInBkgndOnly(b); }
}
