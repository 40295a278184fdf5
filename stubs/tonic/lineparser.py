# -*- coding: us-ascii -*-
# Stand-in for tonic.lineparser, which is not installed: what the record
# validator relies on.  A line is matched against the alternatives of _first
# (then _last); for every named group of the match that took part, the method
# handle_<name> is called, if there is one, with the matched text and the match.
import re


class LineParser(object):
  _first = r''
  _last = r''
  _compiled = None

  def get_regexp(self):
    if self._compiled is None:
      self._compiled = re.compile('%s|%s' % (self._first, self._last))
    return self._compiled

  def parse(self, line):
    matchobj = self.get_regexp().match(line)
    if matchobj is None:
      return
    d = matchobj.groupdict()
    for name in sorted(d.keys()):
      if d[name] is not None:
        handler = getattr(self, 'handle_' + name, None)
        if handler is not None:
          handler(d[name], matchobj)
