// Entry points to the public interface of variables and expressions (analysed, never run).
#include "Alias.hh"
#include "Assignment.hh"
#include "ExecListenerBase.hh"
#include "ArrayImpl.hh"
#include "ArrayReference.hh"
#include "ArrayVariable.hh"
#include "Assignable.hh"
#include "SimpleBooleanVariable.hh"
#include "UserVariable.hh"
#include "Value.hh"
#include "CommandImpl.hh"
#include "CommandHandleVariable.hh"
#include "NodeTimepointValue.hh"
#include "BooleanOperators.hh"
#include "CachedFunction.hh"
#include "ExprVec.hh"
#include "Function.hh"
#include "Lookup.hh"
#include "StringOperators.hh"

namespace witness
{
  using namespace PLEXIL;

  BooleanVariable *new_Boolean() { return new BooleanVariable("x"); }
  IntegerVariable *new_Integer() { return new IntegerVariable("x"); }
  RealVariable *new_Real() { return new RealVariable("x"); }
  StringVariable *new_String() { return new StringVariable("x"); }
  BooleanArrayVariable *new_BooleanArray(Expression *size) { return new BooleanArrayVariable("x", size); }
  IntegerArrayVariable *new_IntegerArray(Expression *size) { return new IntegerArrayVariable("x", size); }
  RealArrayVariable *new_RealArray(Expression *size) { return new RealArrayVariable("x", size); }
  StringArrayVariable *new_StringArray(Expression *size) { return new StringArrayVariable("x", size); }
  SimpleBooleanVariable *new_SimpleBoolean() { return new SimpleBooleanVariable("x"); }
  MutableArrayReference *new_Element(Expression *ary, Expression *idx) { return new MutableArrayReference(ary, idx); }

  BooleanArray *ary_Boolean(size_t n) { return new BooleanArray(n); }
  IntegerArray *ary_Integer(size_t n) { return new IntegerArray(n); }
  RealArray *ary_Real(size_t n) { return new RealArray(n); }
  StringArray *ary_String(size_t n) { return new StringArray(n); }
  void put_Boolean(Array *a, size_t i, Boolean const &v) { a->setElement(i, v); }
  void put_Integer(Array *a, size_t i, Integer const &v) { a->setElement(i, v); }
  void put_Real(Array *a, size_t i, Real const &v) { a->setElement(i, v); }
  void put_String(Array *a, size_t i, String const &v) { a->setElement(i, v); }
  bool at_Boolean(Array const *a, size_t i, Boolean &v) { return a->getElement(i, v); }
  bool at_Integer(Array const *a, size_t i, Integer &v) { return a->getElement(i, v); }
  bool at_Real(Array const *a, size_t i, Real &v) { return a->getElement(i, v); }
  bool at_String(Array const *a, size_t i, String &v) { return a->getElement(i, v); }
  size_t ary_size(Array const *a) { return a->size(); }

  void x_activate(Expression *e) { e->activate(); }
  void x_deactivate(Expression *e) { e->deactivate(); }
  void x_listen(Expression *e, ExpressionListener *l) { e->addListener(l); }
  void x_unlisten(Expression *e, ExpressionListener *l) { e->removeListener(l); }
  Value x_value(Expression const *e) { return e->toValue(); }
  bool x_known(Expression const *e) { return e->isKnown(); }
  Value *x_valuep(Expression const *e) { return new Value(e->toValue()); }
  bool get_StringPtr(Expression const *e, String const *&v) { return e->getValuePointer(v); }
  void x_print(Expression const *e, std::ostream &s) { e->printValue(s); }
  bool get_Boolean(Expression const *e, Boolean &r) { return e->getValue(r); }
  bool get_Integer(Expression const *e, Integer &r) { return e->getValue(r); }
  bool get_Real(Expression const *e, Real &r) { return e->getValue(r); }
  bool get_String(Expression const *e, String &r) { return e->getValue(r); }
  bool get_Array(Expression const *e, Array const *&r) { return e->getValuePointer(r); }

  void x_init(Variable *v, Expression *e) { v->setInitializer(e, false); }
  void x_set(Assignable *a, Value const &v) { a->setValue(v); }
  void x_setUnknown(Assignable *a) { a->setUnknown(); }
  void x_save(Assignable *a) { a->saveCurrentValue(); }
  void x_restore(Assignable *a) { a->restoreSavedValue(); }
  Value x_saved(Assignable const *a) { return a->getSavedValue(); }
  void x_setFlag(SimpleBooleanVariable *a, Boolean const &v) { a->setValue(v); }
  void x_setElement(ArrayVariable *a, size_t i, Value const &v) { a->setElement(i, v); }
  void x_setElementUnknown(ArrayVariable *a, size_t i) { a->setElementUnknown(i); }

  Assignment *new_Assignment(Assignable *lhs, Expression *rhs)
  {
    Assignment *a = new Assignment();
    a->setVariable(lhs, false);
    a->setExpression(rhs, false);
    return a;
  }
  Expression *a_ack(Assignment *a) { return a->getAck(); }
  Expression *a_abort(Assignment *a) { return a->getAbortComplete(); }
  void a_activate(Assignment *a) { a->activate(); }
  void a_deactivate(Assignment *a) { a->deactivate(); }
  void a_fix(Assignment *a) { a->fixValue(); }
  void a_execute(Assignment *a, ExecListenerBase *l) { a->execute(l); }
  void a_retract(Assignment *a, ExecListenerBase *l) { a->retract(l); }

  CommandImpl *new_Command(Expression *name)
  {
    CommandImpl *c = new CommandImpl("node");
    c->setNameExpr(name, false);
    return c;
  }
  Expression *c_ack(CommandImpl *c) { return c->getAck(); }
  Expression *c_abort(CommandImpl *c) { return c->getAbortComplete(); }
  void c_activate(CommandImpl *c) { c->activate(); }
  void c_deactivate(CommandImpl *c) { c->deactivate(nullptr); }
  void c_handle(CommandImpl *c, CommandHandleValue v) { c->setCommandHandle(v); }
  void c_ackAbort(CommandImpl *c, bool b) { c->acknowledgeAbort(b); }
  bool get_Handle(Expression const *e, CommandHandleValue &r) { return e->getValue(r); }

  NodeTimepointValue *new_Timepoint() { return new NodeTimepointValue(nullptr, EXECUTING_STATE, false); }
  void tp_set(NodeTimepointValue *t, Real v) { t->setValue(v); }
  void tp_reset(NodeTimepointValue *t) { t->reset(); }

  void l_notify(ExpressionListener *l) { l->notifyChanged(); }
  Function *new_Function(size_t n) { return makeFunction(BooleanNot::instance(), n); }
  Function *new_Function1(Expression *e) { return makeFunction(BooleanNot::instance(), e, false); }
  Function *new_Function2(Expression *e, Expression *f) { return makeFunction(BooleanNot::instance(), e, f, false, false); }
  Function *new_CachedFunction(size_t n) { return makeCachedFunction(StringConcat::instance(), n); }
  Function *new_CachedFunction1(Expression *e) { return makeCachedFunction(StringConcat::instance(), e, false); }
  Function *new_CachedFunction2(Expression *e, Expression *f) { return makeCachedFunction(StringConcat::instance(), e, f, false, false); }
  void f_arg(Function *f, size_t i, Expression *e) { f->setArgument(i, e, false); }
  Alias *new_Alias(Expression *e) { return new Alias("x", e, false); }
  ArrayReference *new_ArrayRef(Expression *ary, Expression *idx) { return new ArrayReference(ary, idx); }
  ExprVec *new_Vec(size_t n) { return makeExprVec(n); }
  void vec_arg(ExprVec *v, size_t i, Expression *e) { v->setArgument(i, e, false); }
  void vec_activate(ExprVec *v) { v->activate(); }
  void vec_deactivate(ExprVec *v) { v->deactivate(); }
  void vec_listen(ExprVec *v, ExpressionListener *l) { v->addListener(l); }
  void vec_unlisten(ExprVec *v, ExpressionListener *l) { v->removeListener(l); }
  Expression *new_Lookup(Expression *name, ExprVec *v) { return makeLookup(name, false, UNKNOWN_TYPE, v); }
  Expression *new_ChangeLookup(Expression *name, Expression *tolerance, ExprVec *v)
  {
    return makeLookupOnChange(name, false, UNKNOWN_TYPE, tolerance, false, v);
  }
}
