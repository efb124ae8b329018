// Entry points to values, arrays, states and the lookup cache (analysed, never run).
#include "ArrayImpl.hh"
#include "CachedValue.hh"
#include "CommandHandle.hh"
#include "NodeConstants.hh"
#include "State.hh"
#include "StateCache.hh"
#include "StateCacheEntry.hh"
#include "Value.hh"
#include "Lookup.hh"
#include <sstream>

namespace witness
{
  using namespace PLEXIL;

  // ---- Value
  Value *v_new() { return new Value(); }
  Value *v_unk(ValueType t) { return new Value(t); }
  Value *v_from_Boolean(Boolean x) { return new Value(x); }
  Value *v_set_Boolean(Value *v, Boolean x) { return &(*v = x); }
  bool v_get_Boolean(Value const *v, Boolean &x) { return v->getValue(x); }
  Value *v_from_Integer(Integer x) { return new Value(x); }
  Value *v_set_Integer(Value *v, Integer x) { return &(*v = x); }
  bool v_get_Integer(Value const *v, Integer &x) { return v->getValue(x); }
  Value *v_from_Real(Real x) { return new Value(x); }
  Value *v_set_Real(Value *v, Real x) { return &(*v = x); }
  bool v_get_Real(Value const *v, Real &x) { return v->getValue(x); }
  Value *v_from_NodeState(NodeState x) { return new Value(x); }
  Value *v_set_NodeState(Value *v, NodeState x) { return &(*v = x); }
  bool v_get_NodeState(Value const *v, NodeState &x) { return v->getValue(x); }
  Value *v_from_NodeOutcome(NodeOutcome x) { return new Value(x); }
  Value *v_set_NodeOutcome(Value *v, NodeOutcome x) { return &(*v = x); }
  bool v_get_NodeOutcome(Value const *v, NodeOutcome &x) { return v->getValue(x); }
  Value *v_from_FailureType(FailureType x) { return new Value(x); }
  Value *v_set_FailureType(Value *v, FailureType x) { return &(*v = x); }
  bool v_get_FailureType(Value const *v, FailureType &x) { return v->getValue(x); }
  Value *v_from_CommandHandleValue(CommandHandleValue x) { return new Value(x); }
  Value *v_set_CommandHandleValue(Value *v, CommandHandleValue x) { return &(*v = x); }
  bool v_get_CommandHandleValue(Value const *v, CommandHandleValue &x) { return v->getValue(x); }
  Value *v_from_String(String const &x) { return new Value(x); }
  Value *v_set_String(Value *v, String const &x) { return &(*v = x); }
  bool v_ptr_String(Value const *v, String const *&x) { return v->getValuePointer(x); }
  Value *v_from_BooleanArray(BooleanArray const &x) { return new Value(x); }
  Value *v_set_BooleanArray(Value *v, BooleanArray const &x) { return &(*v = x); }
  bool v_ptr_BooleanArray(Value const *v, BooleanArray const *&x) { return v->getValuePointer(x); }
  Value *v_from_IntegerArray(IntegerArray const &x) { return new Value(x); }
  Value *v_set_IntegerArray(Value *v, IntegerArray const &x) { return &(*v = x); }
  bool v_ptr_IntegerArray(Value const *v, IntegerArray const *&x) { return v->getValuePointer(x); }
  Value *v_from_RealArray(RealArray const &x) { return new Value(x); }
  Value *v_set_RealArray(Value *v, RealArray const &x) { return &(*v = x); }
  bool v_ptr_RealArray(Value const *v, RealArray const *&x) { return v->getValuePointer(x); }
  Value *v_from_StringArray(StringArray const &x) { return new Value(x); }
  Value *v_set_StringArray(Value *v, StringArray const &x) { return &(*v = x); }
  bool v_ptr_StringArray(Value const *v, StringArray const *&x) { return v->getValuePointer(x); }
  Value *v_from_Array(Array const &x) { return new Value(x); }
  bool v_ptr_Array(Value const *v, Array const *&x) { return v->getValuePointer(x); }
  bool v_get_String(Value const *v, String &x) { return v->getValue(x); }
  Value *v_from_chars(char const *x) { return new Value(x); }
  Value *v_set_chars(Value *v, char const *x) { return &(*v = x); }
  Value *v_copy(Value const *v) { return new Value(*v); }
  Value *v_move(Value *v) { return new Value(std::move(*v)); }
  Value *v_assign(Value *v, Value const *w) { return &(*v = *w); }
  Value *v_moveassign(Value *v, Value *w) { return &(*v = std::move(*w)); }
  void v_setUnknown(Value *v) { v->setUnknown(); }
  bool v_known(Value const *v) { return v->isKnown(); }
  ValueType v_type(Value const *v) { return v->valueType(); }
  bool v_eq(Value const *v, Value const *w) { return *v == *w; }
  bool v_ne(Value const *v, Value const *w) { return *v != *w; }
  bool v_lt(Value const *v, Value const *w) { return *v < *w; }
  bool v_le(Value const *v, Value const *w) { return *v <= *w; }
  bool v_gt(Value const *v, Value const *w) { return *v > *w; }
  bool v_ge(Value const *v, Value const *w) { return *v >= *w; }
  void v_print(Value const *v, std::ostream &s) { v->print(s); }
  void v_destroy(Value *v) { delete v; }
  char *v_ser(Value const *v, char *b) { return v->serialize(b); }
  char const *v_deser(Value *v, char const *b) { return v->deserialize(b); }
  size_t v_sersize(Value const *v) { return v->serialSize(); }
  Value *v_fromvec(std::vector<Value> const &x) { return new Value(x); }
  // ---- Array
  BooleanArray *arr_new_Boolean(size_t n) { return new BooleanArray(n); }
  BooleanArray *arr_new0_Boolean() { return new BooleanArray(); }
  BooleanArray *arr_fill_Boolean(size_t n, Boolean const &x) { return new BooleanArray(n, x); }
  BooleanArray *arr_vec_Boolean(std::vector<Boolean> const &x) { return new BooleanArray(x); }
  BooleanArray *arr_mvec_Boolean(std::vector<Boolean> &x) { return new BooleanArray(std::move(x)); }
  BooleanArray *arr_copy_Boolean(BooleanArray const *a) { return new BooleanArray(*a); }
  BooleanArray *arr_move_Boolean(BooleanArray *a) { return new BooleanArray(std::move(*a)); }
  void arr_assign_Boolean(BooleanArray *a, BooleanArray const *b) { *a = *b; }
  void arr_massign_Boolean(BooleanArray *a, BooleanArray *b) { *a = std::move(*b); }
  bool arr_eq_Boolean(BooleanArray const *a, BooleanArray const *b) { return *a == *b; }
  bool arr_ne_Boolean(BooleanArray const *a, BooleanArray const *b) { return *a != *b; }
  bool arr_lt_Boolean(BooleanArray const *a, BooleanArray const *b) { return *a < *b; }
  bool arr_le_Boolean(BooleanArray const *a, BooleanArray const *b) { return *a <= *b; }
  bool arr_gt_Boolean(BooleanArray const *a, BooleanArray const *b) { return *a > *b; }
  bool arr_ge_Boolean(BooleanArray const *a, BooleanArray const *b) { return *a >= *b; }
  bool arr_get_Boolean(Array const *a, size_t i, Boolean &x) { return a->getElement(i, x); }
  void arr_set_Boolean(Array *a, size_t i, Boolean const &x) { a->setElement(i, x); }
  IntegerArray *arr_new_Integer(size_t n) { return new IntegerArray(n); }
  IntegerArray *arr_new0_Integer() { return new IntegerArray(); }
  IntegerArray *arr_fill_Integer(size_t n, Integer const &x) { return new IntegerArray(n, x); }
  IntegerArray *arr_vec_Integer(std::vector<Integer> const &x) { return new IntegerArray(x); }
  IntegerArray *arr_mvec_Integer(std::vector<Integer> &x) { return new IntegerArray(std::move(x)); }
  IntegerArray *arr_copy_Integer(IntegerArray const *a) { return new IntegerArray(*a); }
  IntegerArray *arr_move_Integer(IntegerArray *a) { return new IntegerArray(std::move(*a)); }
  void arr_assign_Integer(IntegerArray *a, IntegerArray const *b) { *a = *b; }
  void arr_massign_Integer(IntegerArray *a, IntegerArray *b) { *a = std::move(*b); }
  bool arr_eq_Integer(IntegerArray const *a, IntegerArray const *b) { return *a == *b; }
  bool arr_ne_Integer(IntegerArray const *a, IntegerArray const *b) { return *a != *b; }
  bool arr_lt_Integer(IntegerArray const *a, IntegerArray const *b) { return *a < *b; }
  bool arr_le_Integer(IntegerArray const *a, IntegerArray const *b) { return *a <= *b; }
  bool arr_gt_Integer(IntegerArray const *a, IntegerArray const *b) { return *a > *b; }
  bool arr_ge_Integer(IntegerArray const *a, IntegerArray const *b) { return *a >= *b; }
  bool arr_get_Integer(Array const *a, size_t i, Integer &x) { return a->getElement(i, x); }
  void arr_set_Integer(Array *a, size_t i, Integer const &x) { a->setElement(i, x); }
  RealArray *arr_new_Real(size_t n) { return new RealArray(n); }
  RealArray *arr_new0_Real() { return new RealArray(); }
  RealArray *arr_fill_Real(size_t n, Real const &x) { return new RealArray(n, x); }
  RealArray *arr_vec_Real(std::vector<Real> const &x) { return new RealArray(x); }
  RealArray *arr_mvec_Real(std::vector<Real> &x) { return new RealArray(std::move(x)); }
  RealArray *arr_copy_Real(RealArray const *a) { return new RealArray(*a); }
  RealArray *arr_move_Real(RealArray *a) { return new RealArray(std::move(*a)); }
  void arr_assign_Real(RealArray *a, RealArray const *b) { *a = *b; }
  void arr_massign_Real(RealArray *a, RealArray *b) { *a = std::move(*b); }
  bool arr_eq_Real(RealArray const *a, RealArray const *b) { return *a == *b; }
  bool arr_ne_Real(RealArray const *a, RealArray const *b) { return *a != *b; }
  bool arr_lt_Real(RealArray const *a, RealArray const *b) { return *a < *b; }
  bool arr_le_Real(RealArray const *a, RealArray const *b) { return *a <= *b; }
  bool arr_gt_Real(RealArray const *a, RealArray const *b) { return *a > *b; }
  bool arr_ge_Real(RealArray const *a, RealArray const *b) { return *a >= *b; }
  bool arr_get_Real(Array const *a, size_t i, Real &x) { return a->getElement(i, x); }
  void arr_set_Real(Array *a, size_t i, Real const &x) { a->setElement(i, x); }
  StringArray *arr_new_String(size_t n) { return new StringArray(n); }
  StringArray *arr_new0_String() { return new StringArray(); }
  StringArray *arr_fill_String(size_t n, String const &x) { return new StringArray(n, x); }
  StringArray *arr_vec_String(std::vector<String> const &x) { return new StringArray(x); }
  StringArray *arr_mvec_String(std::vector<String> &x) { return new StringArray(std::move(x)); }
  StringArray *arr_copy_String(StringArray const *a) { return new StringArray(*a); }
  StringArray *arr_move_String(StringArray *a) { return new StringArray(std::move(*a)); }
  void arr_assign_String(StringArray *a, StringArray const *b) { *a = *b; }
  void arr_massign_String(StringArray *a, StringArray *b) { *a = std::move(*b); }
  bool arr_eq_String(StringArray const *a, StringArray const *b) { return *a == *b; }
  bool arr_ne_String(StringArray const *a, StringArray const *b) { return *a != *b; }
  bool arr_lt_String(StringArray const *a, StringArray const *b) { return *a < *b; }
  bool arr_le_String(StringArray const *a, StringArray const *b) { return *a <= *b; }
  bool arr_gt_String(StringArray const *a, StringArray const *b) { return *a > *b; }
  bool arr_ge_String(StringArray const *a, StringArray const *b) { return *a >= *b; }
  bool arr_get_String(Array const *a, size_t i, String &x) { return a->getElement(i, x); }
  void arr_set_String(Array *a, size_t i, String const &x) { a->setElement(i, x); }
  bool arr_getp_String(Array const *a, size_t i, String const *&x) { return a->getElementPointer(i, x); }
  size_t arr_size(Array const *a) { return a->size(); }
  bool arr_known(Array const *a, size_t i) { return a->elementKnown(i); }
  bool arr_all(Array const *a) { return a->allElementsKnown(); }
  bool arr_any(Array const *a) { return a->anyElementsKnown(); }
  void arr_resize(Array *a, size_t n) { a->resize(n); }
  void arr_unk(Array *a, size_t i) { a->setElementUnknown(i); }
  void arr_reset(Array *a) { a->reset(); }
  Array *arr_clone(Array const *a) { return a->clone(); }
  void arr_vassign(Array *a, Array const *b) { *a = *b; }
  void arr_vmassign(Array *a, Array *b) { *a = std::move(*b); }
  bool arr_veq(Array const *a, Array const *b) { return *a == *b; }
  void arr_setv(Array *a, size_t i, Value const &v) { a->setElementValue(i, v); }
  Value *arr_getv(Array const *a, size_t i) { return new Value(a->getElementValue(i)); }
  ValueType arr_type(Array const *a) { return a->getElementType(); }
  void arr_print(Array const *a, std::ostream &s) { a->print(s); }
  char *arr_ser(Array const *a, char *b) { return a->serialize(b); }
  char const *arr_deser(Array *a, char const *b) { return a->deserialize(b); }
  size_t arr_sersize(Array const *a) { return a->serialSize(); }
  // ---- byte forms of single values
  char *fs_ser_Boolean(Boolean const &v, char *b) { return serialize(v, b); }
  char const *fs_deser_Boolean(Boolean &v, char const *b) { return deserialize(v, b); }
  size_t fs_size_Boolean(Boolean const &v) { return serialSize(v); }
  char *fs_ser_Integer(Integer const &v, char *b) { return serialize(v, b); }
  char const *fs_deser_Integer(Integer &v, char const *b) { return deserialize(v, b); }
  size_t fs_size_Integer(Integer const &v) { return serialSize(v); }
  char *fs_ser_Real(Real const &v, char *b) { return serialize(v, b); }
  char const *fs_deser_Real(Real &v, char const *b) { return deserialize(v, b); }
  size_t fs_size_Real(Real const &v) { return serialSize(v); }
  char *fs_ser_String(String const &v, char *b) { return serialize(v, b); }
  char const *fs_deser_String(String &v, char const *b) { return deserialize(v, b); }
  size_t fs_size_String(String const &v) { return serialSize(v); }
  char *fs_ser_CommandHandleValue(CommandHandleValue const &v, char *b) { return serialize(v, b); }
  char const *fs_deser_CommandHandleValue(CommandHandleValue &v, char const *b) { return deserialize(v, b); }
  size_t fs_size_CommandHandleValue(CommandHandleValue const &v) { return serialSize(v); }
  char *fs_ser_chars(char const *v, char *b) { return serialize<char const *>(v, b); }
  size_t fs_size_chars(char const *v) { return serialSize<char const *>(v); }
  char *fs_ser_BooleanArray(BooleanArray const &v, char *b) { return serialize(v, b); }
  char const *fs_deser_BooleanArray(BooleanArray &v, char const *b) { return deserialize(v, b); }
  size_t fs_size_BooleanArray(BooleanArray const &v) { return serialSize(v); }
  char *fs_ser_IntegerArray(IntegerArray const &v, char *b) { return serialize(v, b); }
  char const *fs_deser_IntegerArray(IntegerArray &v, char const *b) { return deserialize(v, b); }
  size_t fs_size_IntegerArray(IntegerArray const &v) { return serialSize(v); }
  char *fs_ser_RealArray(RealArray const &v, char *b) { return serialize(v, b); }
  char const *fs_deser_RealArray(RealArray &v, char const *b) { return deserialize(v, b); }
  size_t fs_size_RealArray(RealArray const &v) { return serialSize(v); }
  char *fs_ser_StringArray(StringArray const &v, char *b) { return serialize(v, b); }
  char const *fs_deser_StringArray(StringArray &v, char const *b) { return deserialize(v, b); }
  size_t fs_size_StringArray(StringArray const &v) { return serialSize(v); }
  // ---- State
  State *s_new(char const *n, size_t c) { return new State(n, c); }
  State *s_new1(std::string const &n, Value const &v) { return new State(n, v); }
  State *s_new2(std::string const &n, Value const &v, Value const &w) { return new State(n, v, w); }
  State *s_copy(State const *s) { return new State(*s); }
  State *s_move(State *s) { return new State(std::move(*s)); }
  void s_assign(State *s, State const *t) { *s = *t; }
  void s_massign(State *s, State *t) { *s = std::move(*t); }
  void s_setParam(State *s, size_t i, Value const &v) { s->setParameter(i, v); }
  size_t s_count(State const *s) { return s->parameterCount(); }
  Value const *s_param(State const *s, size_t i) { return &s->parameter(i); }
  std::string const *s_name(State const *s) { return &s->name(); }
  bool s_eq(State const *s, State const *t) { return *s == *t; }
  bool s_lt(State const *s, State const *t) { return *s < *t; }
  char *s_ser(State const *v, char *b) { return v->serialize(b); }
  char const *s_deser(State *v, char const *b) { return v->deserialize(b); }
  size_t s_sersize(State const *v) { return v->serialSize(); }
  // ---- CachedValue
  CachedValue *cv_new(ValueType t) { return CachedValueFactory(t); }
  bool cv_update_Boolean(CachedValue *c, unsigned ts, Boolean const &x) { return c->update(ts, x); }
  bool cv_get_Boolean(CachedValue const *c, Boolean &x) { return c->getValue(x); }
  bool cv_update_Integer(CachedValue *c, unsigned ts, Integer const &x) { return c->update(ts, x); }
  bool cv_get_Integer(CachedValue const *c, Integer &x) { return c->getValue(x); }
  bool cv_update_Real(CachedValue *c, unsigned ts, Real const &x) { return c->update(ts, x); }
  bool cv_get_Real(CachedValue const *c, Real &x) { return c->getValue(x); }
  bool cv_update_String(CachedValue *c, unsigned ts, String const &x) { return c->update(ts, x); }
  bool cv_get_String(CachedValue const *c, String &x) { return c->getValue(x); }
  bool cv_updatePtr_String(CachedValue *c, unsigned ts, String const *x) { return c->updatePtr(ts, x); }
  bool cv_ptr_String(CachedValue const *c, String const *&x) { return c->getValuePointer(x); }
  bool cv_updatePtr_BooleanArray(CachedValue *c, unsigned ts, BooleanArray const *x) { return c->updatePtr(ts, x); }
  bool cv_ptr_BooleanArray(CachedValue const *c, BooleanArray const *&x) { return c->getValuePointer(x); }
  bool cv_updatePtr_IntegerArray(CachedValue *c, unsigned ts, IntegerArray const *x) { return c->updatePtr(ts, x); }
  bool cv_ptr_IntegerArray(CachedValue const *c, IntegerArray const *&x) { return c->getValuePointer(x); }
  bool cv_updatePtr_RealArray(CachedValue *c, unsigned ts, RealArray const *x) { return c->updatePtr(ts, x); }
  bool cv_ptr_RealArray(CachedValue const *c, RealArray const *&x) { return c->getValuePointer(x); }
  bool cv_updatePtr_StringArray(CachedValue *c, unsigned ts, StringArray const *x) { return c->updatePtr(ts, x); }
  bool cv_ptr_StringArray(CachedValue const *c, StringArray const *&x) { return c->getValuePointer(x); }
  bool cv_ptr_Array(CachedValue const *c, Array const *&x) { return c->getValuePointer(x); }
  bool cv_updateValue(CachedValue *c, unsigned ts, Value const &v) { return c->update(ts, v); }
  bool cv_setUnknown(CachedValue *c, unsigned ts) { return c->setUnknown(ts); }
  bool cv_known(CachedValue const *c) { return c->isKnown(); }
  ValueType cv_type(CachedValue const *c) { return c->valueType(); }
  bool cv_eq(CachedValue const *c, CachedValue const *d) { return *c == *d; }
  CachedValue *cv_clone(CachedValue const *c) { return c->clone(); }
  void cv_assign(CachedValue *c, CachedValue const *d) { *c = *d; }
  Value *cv_value(CachedValue const *c) { return new Value(c->toValue()); }
  unsigned cv_time(CachedValue const *c) { return c->getTimestamp(); }
  // ---- lookup cache entries
  StateCacheEntry *ce_new() { return makeStateCacheEntry().release(); }
  void ce_register(StateCacheEntry *e, State const &s, Lookup *l) { e->registerLookup(s, l); }
  void ce_unregister(StateCacheEntry *e, State const &s, Lookup *l) { e->unregisterLookup(s, l); }
  bool ce_has(StateCacheEntry *e) { return e->hasRegisteredLookups(); }
  void ce_thresholds(StateCacheEntry *e, State const &s) { e->updateThresholds(s); }
  CachedValue const *ce_cached(StateCacheEntry *e) { return e->cachedValue(); }
  bool ce_known(StateCacheEntry *e) { return e->isKnown(); }
  void ce_unknown(StateCacheEntry *e) { e->getLookupReceiver()->setUnknown(); }
  void ce_updateValue(StateCacheEntry *e, Value const &v, unsigned ts) { e->updateValue(v, ts); }
  void ce_update_Boolean(StateCacheEntry *e, Boolean x) { e->getLookupReceiver()->update(x); }
  void ce_update_Integer(StateCacheEntry *e, Integer x) { e->getLookupReceiver()->update(x); }
  void ce_update_Real(StateCacheEntry *e, Real x) { e->getLookupReceiver()->update(x); }
  void ce_update_String(StateCacheEntry *e, String x) { e->getLookupReceiver()->update(x); }
  void ce_updateV(StateCacheEntry *e, Value const &v) { e->getLookupReceiver()->update(v); }
}
