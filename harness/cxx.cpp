#include <decimal/decimal>
#include <sstream>
#include <cstring>
template <class T, class R> static int put (R raw, int flags, int prec, char *out, int n)
{
  T d; d.__setval (raw);
  std::ostringstream os;
  if (flags & 1) os.setf (std::ios::fixed);
  if (flags & 2) os.setf (std::ios::scientific);
  if (flags & 4) os.setf (std::ios::uppercase);
  os.precision (prec);
  os << d;
  std::string s = os.str ();
  int l = (int) s.size () < n - 1 ? (int) s.size () : n - 1;
  memcpy (out, s.data (), l); out[l] = 0;
  return l;
}
/* two extractions from one stream: values, which failed, characters taken by each */
template <class T> static void get (const char *s, T &d, T &d2, int *fail, int *pos)
{
  std::istringstream is (s); int len = (int) strlen (s);
  is >> d; *fail = is.fail (); pos[0] = len - (int) is.rdbuf ()->in_avail ();
  is >> d2; *fail |= is.fail () ? 2 : 0; pos[1] = len - (int) is.rdbuf ()->in_avail ();
}
extern "C" int cxx_oput (int w, const void *bits, int flags, int prec, char *out, int n)
{
  if (w == 32) { decimal32::__decfloat32 x; memcpy (&x, bits, 4); return put<decimal32> (x, flags, prec, out, n); }
  if (w == 64) { decimal64::__decfloat64 x; memcpy (&x, bits, 8); return put<decimal64> (x, flags, prec, out, n); }
  decimal128::__decfloat128 x; memcpy (&x, bits, 16); return put<decimal128> (x, flags, prec, out, n);
}
template <class T, class R> static void iget (const char *s, void *b, void *b2, int *fail, int *pos)
{
  T d, d2; get (s, d, d2, fail, pos);
  R x = d.__getval (), y = d2.__getval (); memcpy (b, &x, sizeof x); memcpy (b2, &y, sizeof y);
}
extern "C" void cxx_iget (int w, const char *s, void *b, void *b2, int *fail, int *pos)
{
  if (w == 32) iget<decimal32, decimal32::__decfloat32> (s, b, b2, fail, pos);
  else if (w == 64) iget<decimal64, decimal64::__decfloat64> (s, b, b2, fail, pos);
  else iget<decimal128, decimal128::__decfloat128> (s, b, b2, fail, pos);
}
/* write and read back through one stream */
template <class T, class R> static void trip (void *b, int sci, int prec)
{
  R x; memcpy (&x, b, sizeof x); T d; d.__setval (x); T e;
  std::stringstream ss; ss.setf (std::ios::scientific); if (!sci) ss.setf (std::ios::fixed); else ss.precision (prec);
  ss << d; ss >> e; x = e.__getval (); memcpy (b, &x, sizeof x);
}
extern "C" void cxx_trip (int w, void *b, int sci, int prec)
{
  if (w == 32) trip<decimal32, decimal32::__decfloat32> (b, sci, prec);
  else if (w == 64) trip<decimal64, decimal64::__decfloat64> (b, sci, prec);
  else trip<decimal128, decimal128::__decfloat128> (b, sci, prec);
}
