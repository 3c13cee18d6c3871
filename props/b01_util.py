"""When NFC must equal the Unicode NFC form."""
import unicodedata


def in_order(w):
  """Marks are in canonical order, and parts that compose stand together."""
  d = unicodedata.normalize('NFD', w)
  if d != ''.join(unicodedata.normalize('NFD', c) for c in w):
    return False
  out = ''
  for c in d:
    two = unicodedata.normalize('NFC', out[-1] + c) if out else ''
    out = out[:-1] + two if len(two) == 1 else out + c
  return out == unicodedata.normalize('NFC', w)
