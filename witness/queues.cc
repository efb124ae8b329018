// Instantiates the intrusive queues at a neutral element type (analysed, never run).
#include "LinkedQueue.hh"
#include <functional>

namespace witness
{
  struct Item
  {
    Item *m_next;
    int m_prio;
    Item *next() const { return m_next; }
    Item **nextPtr() { return &m_next; }
  };

  struct ByPrio
  {
    bool operator()(Item const &x, Item const &y) const { return x.m_prio < y.m_prio; }
  };

  typedef PLEXIL::LinkedQueue<Item> Queue;
  typedef PLEXIL::PriorityQueue<Item, ByPrio> PQueue;

  Queue *newQueue() { return new Queue(); }
  void q_push(Queue &q, Item *x) { q.push(x); }
  void q_pop(Queue &q) { q.pop(); }
  void q_remove(Queue &q, Item *x) { q.remove(x); }
  Item *q_removeIf(Queue &q, Item *x) { return q.remove_if([x](Item *y) -> bool { return x == y; }); }
  Item *q_findIf(Queue &q, Item *x) { return q.find_if([x](Item *y) -> bool { return x == y; }); }
  void q_insertFirst(Queue &q, Item *x) { q.insert_after(q.begin(), x); }
  void q_insertSecond(Queue &q, Item *x) { Queue::iterator i = q.begin(); ++i; q.insert_after(i, x); }
  void q_insertEnd(Queue &q, Item *x) { q.insert_after(q.end(), x); }
  void q_clear(Queue &q) { q.clear(); }
  Item *q_front(Queue const &q) { return q.front(); }
  size_t q_size(Queue const &q) { return q.size(); }
  bool q_empty(Queue const &q) { return q.empty(); }
  Item *q_nth(Queue const &q, int n)
  {
    int i = 0;
    for (Item const *x : q)
      if (i++ == n)
        return const_cast<Item *>(x);
    return nullptr;
  }

  PQueue *newPQueue() { return new PQueue(); }
  void p_insert(PQueue &q, Item *x) { q.insert(x); }
  void p_pop(PQueue &q) { q.pop(); }
  void p_remove(PQueue &q, Item *x) { q.remove(x); }
  void p_clear(PQueue &q) { q.clear(); }
  Item *p_front(PQueue const &q) { return q.front(); }
  size_t p_size(PQueue const &q) { return q.size(); }
  bool p_empty(PQueue const &q) { return q.empty(); }
  size_t p_frontCount(PQueue const &q) { return q.front_count(); }
  Item *p_nth(PQueue const &q, int n)
  {
    int i = 0;
    for (Item const *x : q)
      if (i++ == n)
        return const_cast<Item *>(x);
    return nullptr;
  }
}
