# Which tags are kept.
contract strings.HasPrefix(s, p)
  trusted
  returns len(p) <= len(s) && s[:min(len(p), len(s))] == p

fn listed(fs seq(bytes), s bytes, i int) bool decreases ite(i >= len(fs), 0, len(fs)-i) = ite(i >= len(fs) || i < 0, false, fs[i] == s || listed(fs, s, i+1))
fn prefixed(ps seq(bytes), s bytes, i int) bool decreases ite(i >= len(ps), 0, len(ps)-i) = ite(i >= len(ps) || i < 0, false, len(ps[i]) <= len(s) && s[:min(len(ps[i]), len(s))] == ps[i] || prefixed(ps, s, i+1))

contract tagfilterer.keepTag(s)
  props C18
  returns !listed(global("tagfilterer.deleteTags", "seq(bytes)"), s, 0) && !prefixed(global("tagfilterer.deletePrefixes", "seq(bytes)"), s, 0)
  loop 0
    inv listed(global("tagfilterer.deleteTags", "seq(bytes)"), s, iter) == listed(global("tagfilterer.deleteTags", "seq(bytes)"), s, 0)
  loop 1
    inv prefixed(global("tagfilterer.deletePrefixes", "seq(bytes)"), s, iter) == prefixed(global("tagfilterer.deletePrefixes", "seq(bytes)"), s, 0)
