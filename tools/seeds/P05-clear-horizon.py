prop="P05"
edits=[("msf_core/include/msf_core/msf_sortedContainer.h","iterator_T it = GetIteratorClosest(newest - age);","iterator_T it = GetIteratorClosestAfter(newest - age);")]
needs="an element exactly at the age limit, or a closest element that lies before it"
breaks="Clearing old elements also drops an element that is exactly as old as the limit and the one that still covers the horizon."
demo=r'''
#include "prelude.h"
#include <msf_core/msf_sortedContainer.h>
struct E { double time; };
int main() {
  msf_core::SortedContainer<E> c; for (double t : {1., 2., 3., 4., 5.}) { decltype(c)::Ptr_T e(new E); e->time = t; c.Insert(e); }
  c.ClearOlderThan(2.0);   // 3,4,5 are not older than two seconds
  bool ok = c.GetValueAt(3.)->time == 3.; printf("element at the limit kept: %d\n", ok); return ok ? 0 : 1; }
'''
