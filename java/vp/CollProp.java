package vp;

import java.util.*;
import java.util.concurrent.*;

/** Histories of collection operations.  arg selects a family: list, map, deque, misc (default: all). */
public class CollProp extends Prop {
  /** key with few hash codes, so that collisions are common */
  static final class K implements Comparable<K> {
    final int v;
    K(int v) { this.v = v; }
    public int hashCode() { return (v & 3) * 0x10000001; }
    public boolean equals(Object o) { return o instanceof K && ((K) o).v == v; }
    public int compareTo(K o) { return v < o.v ? -1 : v > o.v ? 1 : 0; }
    public String toString() { return "K" + v; }
  }

  enum E8 { A, B, C, D, E, F, G, H }

  static void obj(Out o, Object x) {
    if (x instanceof K) o.k("K" + ((K) x).v);
    else if (x instanceof Map.Entry) { o.k("<"); obj(o, ((Map.Entry) x).getKey()); obj(o, ((Map.Entry) x).getValue()); o.k(">"); }
    else if (x instanceof E8) o.k(((E8) x).name());
    else o.o(x);
  }

  int universe;
  int kind;

  Object elem(Src s) {
    int v = s.below(universe);
    switch (kind) {
      case 0: return Integer.valueOf(v - 3);
      case 1: return new K(v);
      case 2: return "s" + v;
      default: return s.oneIn(8) ? null : (Object) ("n" + v);
    }
  }

  /** the separator of toString is not specified alike */
  static void str(Out o, Object x) {
    String v = String.valueOf(x);
    StringBuilder sb = new StringBuilder();
    for (int i = 0; i < v.length(); ++i) if (v.charAt(i) != ' ') sb.append(v.charAt(i));
    o.s(sb.toString());
  }

  static void dump2(Out o, Collection c) { sortedDump(o, c); }

  static int idx(Src s, int n) {
    if (s.oneIn(7)) return s.below(3) == 0 ? -1 : n + s.below(2);
    return n == 0 ? 0 : s.below(n);
  }

  void ex(Out o, Throwable t) {
    if (t instanceof IndexOutOfBoundsException) o.k("!IOOBE");
    else if (t instanceof NoSuchElementException) o.k("!NSEE");
    else o.ex(t);
    o.tag("exception");
  }

  public void run(Src s, Out o) throws Throwable {
    universe = s.pick(new int[] {4, 10, 40, 200});
    int fam = s.below(6);
    switch (fam) {
      case 0: lists(s, o); break;
      case 1: maps(s, o); break;
      case 2: deques(s, o); break;
      case 3: sets(s, o); break;
      case 4: sorted(s, o); break;
      default: misc(s, o);
    }
  }

  // ---------------------------------------------------------------- lists
  void dump(Out o, Collection c) {
    o.i(c.size()).k(":");
    for (Iterator it = c.iterator(); it.hasNext();) obj(o, it.next());
    o.nl();
  }

  void lists(Src s, Out o) {
    kind = s.below(4);
    List l;
    int which = s.below(7);
    switch (which) {
      case 0: l = s.bool() ? new ArrayList() : new ArrayList(s.below(20)); o.tag("ArrayList"); break;
      case 1: l = new LinkedList(); o.tag("LinkedList"); break;
      case 2: l = s.bool() ? new Vector() : new Vector(1 + s.below(5)); o.tag("Vector"); break;
      case 3: l = new Stack(); o.tag("Stack"); break;
      case 4: l = Collections.synchronizedList(new ArrayList()); o.tag("synchronizedList"); break;
      case 5: {
        Object[] a = new Object[s.below(12)];
        for (int i = 0; i < a.length; ++i) a[i] = elem(s);
        l = Arrays.asList(a); o.tag("asList"); break;
      }
      default: {
        List b = new ArrayList();
        for (int i = s.size(20); i > 0; --i) b.add(elem(s));
        l = new ArrayList(b); o.tag("copied"); break;
      }
    }
    boolean fixed = which == 5;
    int n = 2 + s.size(60);
    for (int step = 0; step < n; ++step) {
      try {
        int op = s.below(24);
        if (fixed && (op == 0 || op == 1 || op == 2 || op == 4 || op == 5 || op == 6 || op == 10 || op == 11 || op == 13 || op == 14)) op = 3;
        o.i(op);
        switch (op) {
          case 0: case 1: o.z(l.add(elem(s))); break;
          case 2: l.add(idx(s, l.size() + 1), elem(s)); break;
          case 3: if (l.size() > 0 || s.bool()) obj(o, l.set(idx(s, l.size()), elem(s))); break;
          case 4: obj(o, l.remove(idx(s, l.size()))); break;
          case 5: o.z(l.remove(elem(s))); break;
          case 6: {
            List x = new ArrayList();
            for (int i = s.below(5); i > 0; --i) x.add(elem(s));
            if (s.bool()) o.z(l.addAll(x)); else o.z(l.addAll(s.below(l.size() + 1), x));
            break;
          }
          case 7: obj(o, l.get(idx(s, l.size()))); break;
          case 8: o.i(l.indexOf(elem(s))).i(l.lastIndexOf(elem(s))); break;
          case 9: o.z(l.contains(elem(s))); break;
          case 10: if (s.oneIn(4)) l.clear(); break;
          case 11: { // iterate and remove
            int m = s.below(3) + 2, c = 0;
            for (Iterator it = l.iterator(); it.hasNext();) { obj(o, it.next()); if (++c % m == 0) { it.remove(); o.k("-"); } }
            break;
          }
          case 12: { // walk with a list iterator
            ListIterator it = s.bool() ? l.listIterator() : l.listIterator(s.below(l.size() + 1));
            for (int i = s.below(20); i > 0; --i) {
              if (s.bool()) { if (it.hasNext()) obj(o, it.next()); else o.k("end"); }
              else { if (it.hasPrevious()) obj(o, it.previous()); else o.k("begin"); }
            }
            o.tag("listIterator");
            break;
          }
          case 13: { // walk, removing sometimes
            ListIterator it = l.listIterator();
            boolean can = false;
            for (int i = s.below(20); i > 0; --i) {
              if (s.below(3) == 0 && can) { it.remove(); can = false; o.k("rm"); }
              else if (s.bool()) { if (it.hasNext()) { obj(o, it.next()); can = true; } }
              else { if (it.hasPrevious()) { obj(o, it.previous()); can = true; } }
            }
            break;
          }
          case 14: {
            List x = new ArrayList();
            for (int i = s.below(3); i > 0; --i) x.add(elem(s));
            o.z(l.removeAll(x));
            break;
          }
          case 15: {
            List x = new ArrayList();
            for (int i = s.below(3); i > 0; --i) x.add(elem(s));
            o.z(l.containsAll(x));
            break;
          }
          case 16: o.o(l.toArray()); break;
          case 17: {
            Object[] a = new Object[s.below(6)];
            Object[] r = l.toArray(a);
            o.i(r.length).z(r == a);
            break;
          }
          case 18: if (which != 4) str(o, l); break;
          case 19: Collections.reverse(l); break;
          case 20: if (kind != 3) { if (s.bool()) Collections.sort(l); else Collections.sort(l, Collections.reverseOrder(new Cmp())); o.tag("sort"); } break;
          case 21: if (kind != 3) { Collections.sort(l, new Cmp()); o.i(sgnIdx(Collections.binarySearch(l, elem(s)), l.size())); } break;
          case 22: Collections.shuffle(l, new Random(s.below(1000))); sortedDump(o, l); if (kind != 3) Collections.sort(l, new Cmp()); else for (int i = 0; i < l.size(); ++i) l.set(i, "sh" + i); break;
          default:
            if (l instanceof Stack) {
              Stack st = (Stack) l;
              switch (s.below(4)) {
                case 0: obj(o, st.push(elem(s))); break;
                case 1: if (st.empty()) o.k("empty"); else obj(o, st.pop()); break;
                case 2: if (!st.empty()) obj(o, st.peek()); break;
                default: o.z(st.empty());
              }
            } else if (l instanceof Vector) {
              Vector v = (Vector) l;
              switch (s.below(6)) {
                case 0: v.addElement(elem(s)); break;
                case 1: v.insertElementAt(elem(s), s.below(v.size() + 1)); break;
                case 2: if (v.size() > 0) v.removeElementAt(s.below(v.size())); break;
                case 3: o.z(v.removeElement(elem(s))); break;
                case 4: for (Enumeration e = v.elements(); e.hasMoreElements();) obj(o, e.nextElement()); break;
                default: { Object[] a = new Object[v.size() + 2]; v.copyInto(a); o.i(a.length); if (v.size() > 0) { obj(o, v.elementAt(0)); v.setElementAt(elem(s), 0); } }
              }
            } else if (l instanceof LinkedList) dequeOp(s, o, (Deque) l);
            else o.z(l.isEmpty());
        }
      } catch (RuntimeException e) { ex(o, e); }
      o.nl();
      if (l.size() > 3) o.nt();
    }
    dump(o, l);
    List other = s.bool() ? new LinkedList(l) : new ArrayList(l);
    if (other.size() > 0 && s.oneIn(3)) other.set(s.below(other.size()), elem(s));
    
    dump(o, other);
  }

  /** binarySearch of equal elements may find any: only report the sign and insertion point */
  static int sgnIdx(int i, int n) { return i >= 0 ? 1 : i; }

  static class Cmp implements Comparator {
    public int compare(Object a, Object b) { return ((Comparable) a).compareTo(b); }
  }

  // ---------------------------------------------------------------- queues
  void dequeOp(Src s, Out o, Deque d) {
    int op = s.below(24);
    o.k("q").i(op);
    switch (op) {
      case 0: d.addFirst(elem(s)); break;
      case 1: d.addLast(elem(s)); break;
      case 2: o.z(d.offerFirst(elem(s))); break;
      case 3: o.z(d.offerLast(elem(s))); break;
      case 4: o.z(d.offer(elem(s))); break;
      case 5: d.push(elem(s)); break;
      case 6: obj(o, d.pollFirst()); break;
      case 7: obj(o, d.pollLast()); break;
      case 8: obj(o, d.poll()); break;
      case 9: obj(o, d.pop()); break;
      case 10: obj(o, d.removeFirst()); break;
      case 11: obj(o, d.removeLast()); break;
      case 12: obj(o, d.peekFirst()); obj(o, d.peekLast()); obj(o, d.peek()); break;
      case 13: obj(o, d.getFirst()); obj(o, d.getLast()); break;
      case 14: obj(o, d.element()); break;
      case 15: obj(o, d.remove()); break;
      case 16: o.z(d.removeFirstOccurrence(elem(s))); break;
      case 17: o.z(d.removeLastOccurrence(elem(s))); break;
      case 18: for (Iterator it = d.descendingIterator(); it.hasNext();) obj(o, it.next()); break;
      case 19: { int m = 1 + s.below(3), c = 0; for (Iterator it = d.iterator(); it.hasNext();) { obj(o, it.next()); if (c++ % m == 0) it.remove(); } break; }
      case 20: o.z(d.contains(elem(s))).z(d.remove(elem(s))); break;
      case 21: o.i(d.size()).z(d.isEmpty()); break;
      case 22: { int m = 1 + s.below(3), c = 0; for (Iterator it = d.descendingIterator(); it.hasNext();) { obj(o, it.next()); if (c++ % m == 0) it.remove(); } break; }
      default: if (s.oneIn(5)) d.clear();
    }
  }

  void deques(Src s, Out o) throws Throwable {
    kind = s.below(3);
    int which = s.below(4);
    int n = 2 + s.size(80);
    if (which < 2) {
      Deque d;
      if (which == 0) { if (s.oneIn(3)) { List x = new ArrayList(); for (int i = s.below(20); i > 0; --i) x.add(elem(s)); d = new ArrayDeque(x); } else d = s.bool() ? new ArrayDeque() : new ArrayDeque(1 + s.below(5)); o.tag("ArrayDeque"); }
      else { d = new LinkedList(); o.tag("LinkedList"); }
      for (int i = 0; i < n; ++i) {
        try { dequeOp(s, o, d); } catch (RuntimeException e) { ex(o, e); }
        if (s.oneIn(4)) for (int k = s.below(12); k > 0; --k) { if (s.below(3) == 0) d.addFirst(elem(s)); else d.addLast(elem(s)); }
        if (d.size() > 3) o.nt();
        o.nl();
      }
      dump(o, d);
      o.o(d.toArray());
    } else if (which == 2) {
      Queue q = new ConcurrentLinkedQueue();
      o.tag("ConcurrentLinkedQueue");
      for (int i = 0; i < n; ++i) {
        try {
          switch (s.below(6)) {
            case 0: case 1: o.z(q.add(elem(s))); break;
            case 2: o.z(q.offer(elem(s))); break;
            case 3: obj(o, q.poll()); break;
            case 4: obj(o, q.peek()); break;
            default: o.z(q.peek() == null);
          }
        } catch (RuntimeException e) { ex(o, e); }
        if (i > 3) o.nt();
      }
      while (q.peek() != null) obj(o, q.poll());
    } else {
      LinkedBlockingQueue q = s.bool() ? new LinkedBlockingQueue() : new LinkedBlockingQueue(1 + s.below(8));
      o.tag("LinkedBlockingQueue");
      for (int i = 0; i < n; ++i) {
        try {
          switch (s.below(12)) {
            case 0: case 1: case 2: o.z(q.offer(elem(s))); break;
            case 3: if (q.remainingCapacity() > 0) q.put(elem(s)); break;
            case 4: obj(o, q.poll()); break;
            case 5: obj(o, q.peek()); break;
            case 6: if (q.size() > 0) obj(o, q.take()); break;
            case 7: { List x = new ArrayList(); o.i(s.bool() ? q.drainTo(x) : q.drainTo(x, s.below(4))); dump(o, x); break; }
            case 8: o.z(q.contains(elem(s))).z(q.remove(elem(s))); break;
            case 9: o.i(q.remainingCapacity() > 1000 ? 1000 : q.remainingCapacity()); break;
            case 10: o.z(q.offer(elem(s), 1, TimeUnit.MILLISECONDS)); obj(o, q.poll(1, TimeUnit.MILLISECONDS)); break;
            default: o.i(q.size()).z(q.isEmpty());
          }
        } catch (RuntimeException e) { ex(o, e); }
        if (q.size() > 3) o.nt();
        o.nl();
      }
      o.i(q.size());
      while (q.size() > 0) obj(o, q.poll());
    }
  }

  // ---------------------------------------------------------------- maps
  static void sortedDump(Out o, Collection c) {
    String[] a = new String[c.size()];
    int n = 0;
    for (Iterator it = c.iterator(); it.hasNext();) {
      Object x = it.next();
      String t = x instanceof Map.Entry ? ((Map.Entry) x).getKey() + "=" + ((Map.Entry) x).getValue() : String.valueOf(x);
      if (n == a.length) { o.k("TOO-MANY"); break; }
      a[n++] = t;
    }
    if (n != a.length) o.k("TOO-FEW");
    for (int i = 1; i < n; ++i) for (int k = i; k > 0 && a[k - 1].compareTo(a[k]) > 0; --k) { String t = a[k]; a[k] = a[k - 1]; a[k - 1] = t; }
    for (int i = 0; i < n; ++i) o.k(a[i]);
  }

  void maps(Src s, Out o) {
    kind = s.below(4);
    int which = s.below(8);
    Map m;
    boolean ordered = false, nulls = true;
    switch (which) {
      case 0: m = s.bool() ? new HashMap() : new HashMap(s.below(10)); o.tag("HashMap"); break;
      case 1: m = new LinkedHashMap(); ordered = true; o.tag("LinkedHashMap"); break;
      case 2: m = new Hashtable(); nulls = false; o.tag("Hashtable"); break;
      case 3: m = new ConcurrentHashMap(); nulls = false; o.tag("ConcurrentHashMap"); break;
      case 4: m = new TreeMap(); ordered = true; nulls = false; o.tag("TreeMap"); break;
      case 5: m = new TreeMap(Collections.reverseOrder(new Cmp())); ordered = true; nulls = false; o.tag("TreeMap"); break;
      case 6: m = Collections.synchronizedMap(new HashMap()); o.tag("synchronizedMap"); break;
      default: m = new IdentityHashMap(); o.tag("IdentityHashMap"); break;
    }
    if (!nulls && kind == 3) kind = 2;
    Object[] keys = null;
    if (which == 7) { keys = new Object[universe]; for (int i = 0; i < universe; ++i) keys[i] = new K(i / 2); }
    int n = 2 + s.size(80);
    for (int step = 0; step < n; ++step) {
      Object k = keys == null ? elem(s) : keys[s.below(keys.length)];
      try {
        int op = s.below(18);
        o.i(op);
        switch (op) {
          case 0: case 1: case 2: case 3: obj(o, m.put(k, Integer.valueOf(step))); break;
          case 4: case 5: obj(o, m.get(k)); break;
          case 6: case 7: obj(o, m.remove(k)); break;
          case 8: o.z(m.containsKey(k)); { Object cv = Integer.valueOf(s.below(step + 1)); if (which != 7) o.z(m.containsValue(cv)); } break;
          case 9: o.i(m.size()).z(m.isEmpty()); break;
          case 10: if (s.oneIn(5)) m.clear(); break;
          case 11: { // remove through an iterator
            int mod = 2 + s.below(3);
            int cnt = 0;
            int view = s.below(3);
            Iterator it = view == 0 ? m.keySet().iterator() : view == 1 ? m.values().iterator() : m.entrySet().iterator();
            while (it.hasNext()) {
              Object x = it.next();
              Object v = view == 0 ? m.get(x) : view == 1 ? x : ((Map.Entry) x).getValue();
              if (((Integer) v).intValue() % mod == 0) { it.remove(); ++cnt; }
            }
            o.i(cnt);
            o.tag("iterator-remove");
            break;
          }
          case 12: { // setValue
            int cnt = 0;
            if (which != 3)
            for (Iterator it = m.entrySet().iterator(); it.hasNext();) { Map.Entry e = (Map.Entry) it.next(); if (e.getKey() == k || (k != null && k.equals(e.getKey()))) { Object ov = e.setValue(Integer.valueOf(1000 + step)); if (which != 7) obj(o, ov); ++cnt; } }
            o.i(cnt);
            break;
          }
          case 13: { Map x = new HashMap(); for (int i = s.below(8); i > 0; --i) x.put(keys == null ? elem(s) : keys[s.below(keys.length)], Integer.valueOf(step)); if (ordered && !(m instanceof TreeMap)) break; m.putAll(x); break; }
          case 14: if (which != 3) o.z(m.keySet().contains(k)).i(m.keySet().size()).i(m.values().size()).i(m.entrySet().size()); break;
          case 15: if (which != 7) o.z(m.keySet().remove(k)); break;
          case 16: if (ordered) dump(o, s.bool() ? m.keySet() : m.values()); else sortedDump(o, s.bool() ? m.keySet() : m.values()); break;
          default:
            if (m instanceof ConcurrentMap) {
              ConcurrentMap cm = (ConcurrentMap) m;
              switch (s.below(4)) {
                case 0: obj(o, cm.putIfAbsent(k, Integer.valueOf(step))); break;
                case 1: o.z(cm.remove(k, s.bool() ? cm.get(k) == null ? "x" : cm.get(k) : (Object) "zz")); break;
                case 2: obj(o, cm.replace(k, Integer.valueOf(step))); break;
                default: o.z(cm.replace(k, cm.get(k) == null || s.bool() ? "x" : cm.get(k), Integer.valueOf(step)));
              }
              o.tag("cas");
            } else if (m instanceof TreeMap) {
              TreeMap t = (TreeMap) m;
              switch (s.below(4)) {
                case 0: obj(o, t.firstKey()); break;
                case 1: obj(o, t.lastKey()); break;
                case 2: obj(o, t.firstEntry()); break;
                default: obj(o, t.lastEntry());
              }
            } else if (m instanceof Hashtable) {
              Hashtable h = (Hashtable) m;
              int cnt = 0;
              for (Enumeration e = s.bool() ? h.keys() : h.elements(); e.hasMoreElements();) { e.nextElement(); ++cnt; }
              o.i(cnt);
            }
        }
      } catch (RuntimeException e) { ex(o, e); }
      o.nl();
      if (m.size() > 4) o.nt();
    }
    if (ordered) { dump(o, m.entrySet()); str(o, m); } else { o.i(m.size()); sortedDump(o, m.entrySet()); o.nl(); if (m.size() < 2 && which != 6 && which != 3 && which != 7) str(o, m); }
    for (int i = 0; i < 6; ++i) { Object k = keys == null ? elem(s) : keys[s.below(keys.length)]; obj(o, m.get(k)); }
  }

  // ---------------------------------------------------------------- sets
  void sets(Src s, Out o) {
    kind = s.below(4);
    int which = s.below(6);
    Set m;
    boolean ordered = false;
    switch (which) {
      case 0: m = s.bool() ? new HashSet() : new HashSet(s.below(8)); o.tag("HashSet"); break;
      case 1: m = new LinkedHashSet(); ordered = true; o.tag("LinkedHashSet"); break;
      case 2: m = Collections.synchronizedSet(new HashSet()); o.tag("synchronizedSet"); break;
      case 3: case 4: m = null; break;
      default: m = new HashMap().keySet(); m = new HashSet(m); o.tag("HashSet"); break;
    }
    if (m == null) { enums(s, o); return; }
    int n = 2 + s.size(60);
    for (int step = 0; step < n; ++step) {
      Object k = elem(s);
      try {
        switch (s.below(12)) {
          case 0: case 1: case 2: o.z(m.add(k)); break;
          case 3: case 4: o.z(m.remove(k)); break;
          case 5: o.z(m.contains(k)); break;
          case 6: o.i(m.size()).z(m.isEmpty()); break;
          case 7: { List x = new ArrayList(); for (int i = s.below(6); i > 0; --i) x.add(elem(s)); o.z(m.addAll(x)); break; }
          case 8: { List x = new ArrayList(); for (int i = s.below(4); i > 0; --i) x.add(elem(s)); o.z(m.containsAll(x)); break; }
          case 9: { List x = new ArrayList(); for (int i = s.below(4); i > 0; --i) x.add(elem(s)); o.z(m.removeAll(x)); break; }
          case 10: { int cnt = 0; for (Iterator it = m.iterator(); it.hasNext();) { Object x = it.next(); if (String.valueOf(x).length() % 2 == 0) { it.remove(); ++cnt; } } o.i(cnt); break; }
          default: { Object[] a = m.toArray(); o.i(a.length); if (s.oneIn(6)) m.clear(); }
        }
      } catch (RuntimeException e) { ex(o, e); }
      if (m.size() > 4) o.nt();
    }
    if (ordered) dump(o, m); else sortedDump(o, m);
    Set c = new HashSet(m);
    if (s.oneIn(3)) c.add(elem(s));
    dump2(o, c);
  }

  void enums(Src s, Out o) {
    o.tag("EnumSet");
    E8[] all = E8.values();
    Set<E8> m = s.bool() ? EnumSet.noneOf(E8.class) : EnumSet.allOf(E8.class);
    for (int n = 1 + s.below(20); n > 0; --n) {
      E8 e = s.pick(all);
      switch (s.below(7)) {
        case 0: case 1: o.z(m.add(e)); break;
        case 2: o.z(m.remove(e)); break;
        case 3: o.z(m.contains(e)).i(m.size()); break;
        case 4: m = EnumSet.complementOf((EnumSet<E8>) m); break;
        case 5: m = EnumSet.copyOf((EnumSet<E8>) m); break;
        default: dump(o, m);
      }
      if (m.size() > 2) o.nt();
    }
    dump(o, m);
  }

  // ---------------------------------------------------------------- sorted sets
  void sorted(Src s, Out o) {
    kind = s.below(3);
    o.tag("TreeSet");
    TreeSet m = s.bool() ? new TreeSet() : new TreeSet(Collections.reverseOrder(new Cmp()));
    int n = 2 + s.size(100);
    for (int step = 0; step < n; ++step) {
      Object k = elem(s);
      try {
        switch (s.below(12)) {
          case 0: case 1: case 2: case 3: o.z(m.add(k)); break;
          case 4: case 5: o.z(m.remove(k)); break;
          case 6: o.z(m.contains(k)); break;
          case 7: o.i(m.size()).z(m.isEmpty()); break;
          case 8: obj(o, m.first()); obj(o, m.last()); break;
          case 9: for (Iterator it = m.descendingIterator(); it.hasNext();) obj(o, it.next()); break;
          case 10: { int mod = 2 + s.below(3), c = 0; for (Iterator it = m.iterator(); it.hasNext();) { obj(o, it.next()); if (c++ % mod == 0) it.remove(); } break; }
          default: { List x = new ArrayList(); for (int i = s.below(20); i > 0; --i) x.add(elem(s)); o.z(m.addAll(x)); if (s.oneIn(10)) m.clear(); }
        }
      } catch (RuntimeException e) { ex(o, e); }
      if (m.size() > 4) o.nt();
      o.nl();
    }
    dump(o, m);
    str(o, m);
    dump(o, new TreeSet(new ArrayList(m)));
  }

  // ---------------------------------------------------------------- BitSet, Random, Arrays
  void misc(Src s, Out o) {
    switch (s.below(3)) {
      case 0: bits(s, o); break;
      case 1: random(s, o); break;
      default: arrays(s, o);
    }
  }

  void bitDump(Out o, BitSet b) {
    o.i(b.length()).i(b.cardinality()).z(b.isEmpty()).k(":");
    for (int i = b.nextSetBit(0); i >= 0; i = b.nextSetBit(i + 1)) o.i(i);
  }

  void bits(Src s, Out o) {
    o.tag("BitSet");
    BitSet[] b = {s.bool() ? new BitSet() : new BitSet(s.below(200)), new BitSet(64)};
    int max = s.pick(new int[] {20, 70, 130, 300});
    for (int n = 2 + s.size(40); n > 0; --n) {
      BitSet x = b[s.below(2)], y = b[0] == x ? b[1] : b[0];
      try {
        switch (s.below(13)) {
          case 0: case 1: x.set(s.below(max)); break;
          case 2: { int f = s.below(max); x.set(f, f + s.below(max)); break; }
          case 3: x.clear(s.below(max)); break;
          case 4: { int f = s.below(max); x.clear(f, f + s.below(max)); break; }
          case 5: x.flip(s.below(max)); break;
          case 6: { int f = s.below(max); x.flip(f, f + s.below(max)); break; }
          case 7: x.and(y); break;
          case 8: x.or(y); break;
          case 9: x.xor(y); break;
          case 10: x.andNot(y); break;
          case 11: o.z(x.intersects(y)).z(x.get(s.below(max))); break;
          default: o.i(x.nextClearBit(s.below(max))).i(x.nextSetBit(s.below(max)));
        }
      } catch (RuntimeException e) { ex(o, e); }
      if (x.cardinality() > 3) o.nt();
      bitDump(o, x);
      o.nl();
    }
    bitDump(o, b[0]); bitDump(o, b[1]);
  }

  void random(Src s, Out o) {
    o.tag("Random");
    Random r = new Random(s.anyLong());
    for (int n = 1 + s.below(20); n > 0; --n) {
      switch (s.below(6)) {
        case 0: o.i(r.nextInt()); break;
        case 1: { int b = s.anyInt(); try { o.i(r.nextInt(b)); } catch (IllegalArgumentException e) { ex(o, e); } break; }
        case 2: o.i(r.nextLong()); break;
        case 3: o.d(r.nextDouble()); break;
        case 4: { byte[] x = new byte[s.below(12)]; r.nextBytes(x); o.bytes(x); break; }
        default: r.setSeed(s.anyLong());
      }
    }
    o.nt();
  }

  void arrays(Src s, Out o) {
    o.tag("Arrays");
    kind = s.below(3);
    Object[] a = new Object[s.size(50)];
    for (int i = 0; i < a.length; ++i) a[i] = elem(s);
    for (int n = 1 + s.below(8); n > 0; --n) {
      try {
        switch (s.below(12)) {
          case 0: { Object[] c = Arrays.copyOf(a, a.length); Arrays.sort(c); for (int i = 0; i < c.length; ++i) obj(o, c[i]); a = c; break; }
          case 1: { Object[] c = Arrays.copyOf(a, a.length); Arrays.sort(c, Collections.reverseOrder(new Cmp())); for (int i = 0; i < c.length; ++i) obj(o, c[i]); break; }
          case 2: str(o, Arrays.toString(a)); break;
          case 3: o.i(Arrays.hashCode(a)).z(Arrays.equals(a, Arrays.copyOf(a, a.length))).z(Arrays.equals(a, new Object[a.length])); break;
          case 4: a = Arrays.copyOf(a, s.below(60)); for (int i = 0; i < a.length; ++i) if (a[i] == null) a[i] = elem(s); o.i(a.length); break;
          case 5: { // order by a key; elements with the same key may come in any order
            final Object[] p = new Object[s.size(200)];
            int range = 1 + s.below(60);
            for (int i = 0; i < p.length; ++i) p[i] = Integer.valueOf(s.below(range) * 1000 + i);
            Arrays.sort(p, new Comparator() { public int compare(Object x, Object y) { return ((Integer) x).intValue() / 1000 - ((Integer) y).intValue() / 1000; } });
            for (int i = 0; i < p.length; ++i) o.i(((Integer) p[i]).intValue() / 1000);
            Arrays.sort(p);
            for (int i = 0; i < p.length; ++i) o.i(((Integer) p[i]).intValue());
            o.tag("sort-array");
            break;
          }
          case 6: {
            int[] x = new int[s.below(20)];
            for (int i = 0; i < x.length; ++i) x[i] = i * 3 + s.below(3);
            o.i(Arrays.binarySearch(x, s.below(60)));
            break;
          }
          case 7: {
            int[] x = new int[s.below(20)];
            for (int i = 0; i < x.length; ++i) x[i] = i * 3 + s.below(3);
            int f = s.below(x.length + 1), t = f + s.below(x.length - f + 1);
            o.i(Arrays.binarySearch(x, f, t, s.below(60)));
            break;
          }
          case 8: {
            long[] x = new long[s.below(10)]; double[] d = new double[x.length]; float[] fl = new float[x.length]; char[] c = new char[x.length]; short[] sh = new short[x.length]; byte[] b = new byte[x.length]; boolean[] z = new boolean[x.length];
            int f = s.below(x.length + 1), t = f + s.below(x.length - f + 1);
            Arrays.fill(x, f, t, s.anyLong()); Arrays.fill(d, f, t, s.below(9)); Arrays.fill(fl, f, t, s.below(9)); Arrays.fill(c, f, t, 'x'); Arrays.fill(sh, f, t, (short) s.anyInt()); Arrays.fill(b, f, t, (byte) s.anyInt()); Arrays.fill(z, f, t, true);
            o.s(Arrays.toString(x)).s(Arrays.toString(sh)).s(Arrays.toString(b)).s(Arrays.toString(z));
            for (int i = 0; i < x.length; ++i) o.d(d[i]).f(fl[i]).i(c[i]);
            o.z(Arrays.equals(x, Arrays.copyOf(x, x.length))).z(Arrays.equals(b, Arrays.copyOf(b, x.length))).z(Arrays.equals(d, Arrays.copyOf(d, x.length + 1)));
            break;
          }
          case 9: {
            Object[] p = {"a", new Object[] {"b", Integer.valueOf(s.below(3))}, new int[] {s.below(2)}}, q = {"a", new Object[] {"b", Integer.valueOf(s.below(3))}, new int[] {s.below(2)}};
            o.z(Arrays.deepEquals(p, q)).z(Arrays.equals(p, q));
            break;
          }
          case 10: o.z(Objects.equals(elem(s), elem(s))).i(Objects.hash(elem(s), elem(s))).i(Objects.hashCode(elem(s))).s(Objects.toString(s.bool() ? null : elem(s), "dflt")); break;
          default: {
            int f = s.below(a.length + 1), t = f + s.below(a.length - f + 1);
            Arrays.fill(a, f, t, elem(s));
            o.i(f).i(t);
          }
        }
      } catch (RuntimeException e) { ex(o, e); }
      if (a.length > 4) o.nt();
      o.nl();
    }
  }
}
