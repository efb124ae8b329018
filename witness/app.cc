// Entry points of the adapter interface and the input queues (analysed, never run).
#include "InterfaceManager.hh"
#include "AdapterConfiguration.hh"
#include "SerializedInputQueue.hh"
#include "SimpleInputQueue.hh"
#include "QueueEntry.hh"
#include "State.hh"
#include "pugixml.hpp"

namespace witness
{
  using namespace PLEXIL;

  InterfaceManager *im_new(ExecApplication *app, AdapterConfiguration *cfg) { return new InterfaceManager(app, cfg); }
  bool im_init(InterfaceManager *m) { return m->initialize(); }
  bool im_process(InterfaceManager *m) { return m->processQueue(); }
  void im_valueCC(AdapterExecInterface *m, State const &s, Value const &v) { m->handleValueChange(s, v); }
  void im_valueCM(AdapterExecInterface *m, State const &s, Value &v) { m->handleValueChange(s, std::move(v)); }
  void im_valueMC(AdapterExecInterface *m, State &s, Value const &v) { m->handleValueChange(std::move(s), v); }
  void im_valueMM(AdapterExecInterface *m, State &s, Value &v) { m->handleValueChange(std::move(s), std::move(v)); }
  void im_ack(AdapterExecInterface *m, Command *c, CommandHandleValue v) { m->handleCommandAck(c, v); }
  void im_returnC(AdapterExecInterface *m, Command *c, Value const &v) { m->handleCommandReturn(c, v); }
  void im_returnM(AdapterExecInterface *m, Command *c, Value &v) { m->handleCommandReturn(c, std::move(v)); }
  void im_abort(AdapterExecInterface *m, Command *c, bool b) { m->handleCommandAbortAck(c, b); }
  void im_update(AdapterExecInterface *m, Update *u, bool b) { m->handleUpdateAck(u, b); }
  void im_message(AdapterExecInterface *m, Message *g) { m->notifyMessageReceived(g); }
  void im_empty(AdapterExecInterface *m) { m->notifyMessageQueueEmpty(); }
  void im_accept(AdapterExecInterface *m, Message *g, std::string const &h) { m->notifyMessageAccepted(g, h); }
  void im_released(AdapterExecInterface *m, std::string const &h) { m->notifyMessageHandleReleased(h); }
  void im_plan(AdapterExecInterface *m, pugi::xml_node const n) { m->handleAddPlan(n); }
  unsigned int im_mark(InterfaceManager *m) { return m->markQueue(); }

  InputQueue *iq_serialized() { return new SerializedInputQueue(); }
  InputQueue *iq_simple() { return new SimpleInputQueue(); }
  bool iq_empty(InputQueue const *q) { return q->isEmpty(); }
  QueueEntry *iq_allocate(InputQueue *q) { return q->allocate(); }
  void iq_release(InputQueue *q, QueueEntry *e) { q->release(e); }
  void iq_put(InputQueue *q, QueueEntry *e) { q->put(e); }
  QueueEntry *iq_get(InputQueue *q) { return q->get(); }
  void iq_flush(InputQueue *q) { q->flush(); }
  void iq_delete(InputQueue *q) { delete q; }
}
