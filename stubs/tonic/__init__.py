# -*- coding: us-ascii -*-
# Stand-in for the tonic library (not installed here): a fixed-size array of
# bits, least significant bit of the first byte first, as the project's tests
# describe it.


class BitsArray(object):
  def __init__(self, size, binary=None, endian='<', bits=None):
    assert endian == '<'
    self.size = size
    if bits is not None:
      self.bits = list(bits)
      return
    self.bits = [0] * size
    if binary is not None:
      i = 0
      for c in binary:
        o = ord(c)
        for j in range(8):
          if i < size:
            self.bits[i] = (o >> j) & 1
          i += 1

  def __len__(self):
    return self.size

  def __getitem__(self, key):
    if isinstance(key, slice):
      b = self.bits[key.start:key.stop]
      return BitsArray(len(b), bits=b)
    return self.bits[key]

  def __iter__(self):
    return iter(self.bits)

  def __int__(self):
    n = 0
    for i in range(self.size):
      n = n + (self.bits[i] << i)
    return n

  def __nonzero__(self):
    return int(self) != 0

  def set_shiftable(self, value, begin, end):
    for i in range(begin, end):
      self.bits[i] = (value >> (i - begin)) & 1

  def _binary(self):
    out = []
    for i in range(0, self.size, 8):
      o = 0
      for j in range(8):
        if i + j < self.size:
          o = o + (self.bits[i + j] << j)
      out.append(chr(o))
    return ''.join(out)
  binary = property(_binary)
