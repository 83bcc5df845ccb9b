package vp;

import java.util.*;
import java.util.regex.*;

/** Regular expressions: generated patterns over a small alphabet, all searching operations. */
public class RegexProp extends Prop {
  Src s; Out o; int groups; boolean captures, bound, nullable;
  static final String ALPHA = "abcx01 _-\n\u00e9";

  String chr() {
    switch (s.below(12)) {
      case 0: { o.tag("escape"); return s.pick(new String[] {"\\.", "\\\\", "\\*", "\\(", "\\[", "\\]", "\\{", "\\|", "\\^", "\\$", "\\?", "\\+", "\\n", "\\t", "\\x61", "\\u0062", "\\0143", "\\e", "\\a", "\\f", "\\r"}); }
      case 1: return s.pick(new String[] {"1", "0", " ", "_", "-", "\u00e9", ",", ":", "=", "<", "!"});
      default: return s.pick(new String[] {"a", "b", "c", "x"});
    }
  }
  String cls() { return s.pick(new String[] {"\\d", "\\D", "\\w", "\\W", "\\s", "\\S"}); }
  String set(int d) {
    StringBuilder b = new StringBuilder("[");
    boolean neg = s.oneIn(4);
    if (neg) { b.append('^'); o.tag("negated-set"); }
    int n = 1 + s.below(4);
    for (int i = 0; i < n; ++i)
      switch (s.below(9)) {
        case 0: b.append("a-c"); break;
        case 1: b.append(s.pick(new String[] {"0-9", "b-x", "A-Z", "a-a", "a-\\x63", "\\t-\\r", "\\x30-\\u0039"})); break;
        case 2: b.append(cls()); break;
        case 3: b.append(s.pick(new String[] {"\\]", "\\\\", "\\n", "\\t", "\\^", "\\x61"})); break;
        case 4: if (d > 0 && !neg && s.bool()) { o.tag("union"); b.append(set(d - 1)); } else b.append("."); break;
        default: b.append(s.pick(new String[] {"a", "b", "c", "x", "1", "_", " ", "*", "\u00e9"}));
      }
    if (d > 0 && !neg && s.oneIn(8)) { o.tag("intersection"); b.append("&&").append(set(0)); }
    else if (s.oneIn(8)) b.append('-');
    return b.append(']').toString();
  }
  String quant() {
    String q;
    switch (s.below(8)) {
      case 0: q = "*"; break;
      case 1: q = "+"; break;
      case 2: q = "?"; break;
      case 3: q = "{" + s.below(4) + "}"; break;
      case 4: q = "{" + s.below(3) + ",}"; break;
      default: { int a = s.below(3); q = "{" + a + "," + (a + s.below(3)) + "}"; break; }
    }
    if (s.oneIn(4)) { q += "?"; o.tag("reluctant"); }
    return q;
  }
  String atom(int d, boolean look) {
    switch (s.below(d > 0 ? 14 : 9)) {
      case 0: return ".";
      case 1: return set(1);
      case 2: return cls();
      case 9: case 10: if (look || !captures) return "(?:" + alt(d - 1, look) + ")"; ++groups; return "(" + alt(d - 1, look) + ")";
      case 11: return "(?:" + alt(d - 1, look) + ")";
      default: return chr();
    }
  }
  String seq(int d, boolean look) {
    StringBuilder b = new StringBuilder();
    int n = s.oneIn(12) ? 0 : 1 + s.below(4);
    boolean all = true;
    for (int i = 0; i < n; ++i) {
      int k = s.below(18);
      if (k == 0) { b.append(s.pick(new String[] {"\\b", "\\B"})); o.tag("boundary"); bound = true; }
      else if (k == 1) { b.append(s.pick(new String[] {"^", "$"})); o.tag("anchor"); }
      else if (k == 2 && d > 0 && !look) {
        o.tag("lookaround");
        b.append(s.pick(new String[] {"(?=", "(?!", "(?<=", "(?<!"}));
        boolean behind = b.charAt(b.length() - 2) == '<';
        b.append(behind ? fixed(1 + s.below(3)) : alt(d - 1, true)).append(')');
      } else {
        nullable = false;
        int before = groups;
        String at = atom(d, look);
        b.append(at);
        // OpenJDK leaves what groups within a repeated group captured in iterations which were given up
        boolean inner = groups - before > (at.startsWith("(?:") ? 0 : 1);
        boolean nul = nullable;
        // a repeated expression which matches nothing is out: when the repetition ends is not specified
        if (!nul && s.oneIn(3) && !inner) { String q = quant(); b.append(q); nul = q.charAt(0) == '*' || q.charAt(0) == '?' || q.startsWith("{0"); }
        all &= nul;
      }
    }
    nullable = all;
    return b.toString();
  }
  String fixed(int n) { StringBuilder b = new StringBuilder(); for (int i = 0; i < n; ++i) b.append(s.oneIn(3) ? set(0) : s.oneIn(4) ? cls() : chr()); return b.toString(); }
  String alt(int d, boolean look) {
    String r = seq(d, look);
    boolean nul = nullable;
    while (s.oneIn(4)) { r += "|" + seq(d, look); o.tag("alternation"); nul |= nullable; }
    nullable = nul;
    return r;
  }
  String text() {
    StringBuilder b = new StringBuilder();
    int n = s.size(14);
    for (int i = 0; i < n; ++i) b.append(s.oneIn(12) ? s.pick(new String[] {".", "\\", "(", "]", "*", "\t", "ABC", "^", "-", ",", "9", "Z"}) : "" + s.pick(new String[] {"a", "a", "b", "b", "c", "x", "ab", "abc", "1", "0", " ", "_", "\n", bound ? "-" : "\u00e9"}));
    return b.toString();
  }
  void groups(Matcher m) {
    o.i(m.start()).i(m.end()).s(m.group());
    for (int g = 0; g <= groups; ++g) {
      int st = m.start(g);
      if (!captures && g > 0) break;
      o.i(st).i(m.end(g)).s(m.group(g));
    }
    o.nl();
  }

  public void run(Src s, Out o) throws Throwable {
    this.s = s; this.o = o; groups = 0; bound = false;
    captures = s.bool();
    String p;
    boolean literal = s.oneIn(10);
    if (literal) { p = s.pick(new String[] {"a", "ab", "abc", " ", ",", "\\.", "\\|", "a\\.b", "aa", "_", "\\\\", ""}); o.tag("literal"); }
    else p = alt(3, false);
    o.s(p).nl();
    Pattern pat = Pattern.compile(p);
    if (p.length() > 2) o.nt();
    o.s(pat.pattern()).i(pat.flags()).nl();
    Matcher m = null;
    int n = 1 + s.below(6);
    for (int i = 0; i < n; ++i) {
      String t = text();
      o.s(t);
      switch (s.below(literal ? 7 : 9)) {
        case 0: case 1: {
          m = pat.matcher(t);
          boolean b = m.matches(); o.z(b);
          if (b && !literal) { o.tag("matches"); groups(m); }
          break;
        }
        case 2: case 3: {
          o.tag("find");
          if (m == null || s.bool()) m = pat.matcher(t); else m.reset(t);
          int k = 0;
          while (m.find() && k++ < 30) { o.i(m.start()).i(m.end()).s(m.group()); if (!literal) groups(m); }
          o.nl();
          m = null;
          break;
        }
        case 4: {
          String r = s.pick(new String[] {"", "-", "ZZ", "a"});
          if (!literal && emptyMatch(pat)) break;
          o.tag("replace");
          o.s(s.bool() ? pat.matcher(t).replaceAll(r) : pat.matcher(t).replaceFirst(r));
          o.s(s.bool() ? t.replaceAll(p, r) : t.replaceFirst(p, r)).nl();
          break;
        }
        case 5: {
          int lim = s.pick(new int[] {0, 0, -1, 1, 2, 3, 5});
          if (emptyMatch(pat)) break;
          o.tag("split");
          String[] a = s.bool() ? pat.split(t, lim) : t.split(p, lim);
          o.i(a.length); for (int k = 0; k < a.length; ++k) o.s(a[k]); o.nl();
          break;
        }
        case 6: o.z(t.matches(p)).z(Pattern.matches(p, t)).nl(); break;
        default: {
          int at = s.below(t.length() + 1);
          m = pat.matcher(t);
          boolean b = m.find(at);
          o.tag("find-from");
          o.i(at).z(b); if (b) groups(m); o.nl();
          m = null;
        }
      }
    }
  }
  static boolean emptyMatch(Pattern p) { return p.matcher("").matches() || p.matcher("").find(); }
}
