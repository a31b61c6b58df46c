#pragma once
#include "pbt.h"
// how many objects a scenario uses: few, dozens, hundreds, and the neighbourhood of powers of two
inline size_t g_amount = 0;
inline size_t amount(pbt::Ctx &c, size_t cap = 300) {
  size_t n;
  switch (c.weighted({3, 4, 2, 3})) {
    case 1:
      n = 10 + c.draw(31);
      break;
    case 2:
      n = 41 + c.draw(cap > 41 ? cap - 41 : 1);
      break;
    case 3: {
      static const size_t edge[] = {8, 16, 32, 64, 128, 256};
      n = edge[c.pick(6)] + c.draw(3) - 1;
      break;
    }
    default:
      n = 2 + c.draw(8);
      break;
  }
  if (n > cap) n = cap;
  g_amount = n;
  return n;
}
