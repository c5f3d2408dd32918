// Independent planar geometry used by the oracles (no code of the library).
#pragma once
#include <vector>
#include <cmath>
#include <algorithm>
#include <string>

namespace geo {
typedef long double LD;
struct P { double x = 0, y = 0; };
inline P operator+(P a, P b) { return {a.x + b.x, a.y + b.y}; }
inline P operator-(P a, P b) { return {a.x - b.x, a.y - b.y}; }
inline P operator*(double s, P a) { return {s * a.x, s * a.y}; }
inline LD cross3(P a, P b, P c)
{ return ((LD) b.x - a.x) * ((LD) c.y - a.y) - ((LD) b.y - a.y) * ((LD) c.x - a.x); }
inline LD dot3(P a, P b, P c)
{ return ((LD) b.x - a.x) * ((LD) c.x - a.x) + ((LD) b.y - a.y) * ((LD) c.y - a.y); }
inline double dist(P a, P b) { return std::hypot(a.x - b.x, a.y - b.y); }
inline LD shoelace(const std::vector<P>& v)
{
  LD s = 0; size_t n = v.size();
  for (size_t i = 0; i < n; ++i)
  {
    const P& a = v[i]; const P& b = v[(i + 1) % n];
    s += ((LD) a.x - v[0].x) * ((LD) b.y - v[0].y) - ((LD) b.x - v[0].x) * ((LD) a.y - v[0].y);
  }
  return s / 2;
}
inline double seg_dist(P p, P a, P b)
{
  LD dx = (LD) b.x - a.x, dy = (LD) b.y - a.y, l2 = dx * dx + dy * dy;
  LD t = l2 > 0 ? (((LD) p.x - a.x) * dx + ((LD) p.y - a.y) * dy) / l2 : 0;
  t = t < 0 ? 0 : t > 1 ? 1 : t;
  LD qx = a.x + t * dx - p.x, qy = a.y + t * dy - p.y;
  return (double) std::sqrt(qx * qx + qy * qy);
}
inline LD seg_param(P p, P a, P b)
{
  LD dx = (LD) b.x - a.x, dy = (LD) b.y - a.y;
  return (((LD) p.x - a.x) * dx + ((LD) p.y - a.y) * dy) / (dx * dx + dy * dy);
}
// proper or touching intersection of closed segments (exact for small grids)
inline int sgn(LD v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
inline bool on_box(P p, P a, P b)
{
  return p.x >= std::min(a.x, b.x) && p.x <= std::max(a.x, b.x) &&
         p.y >= std::min(a.y, b.y) && p.y <= std::max(a.y, b.y);
}
inline bool seg_touch(P a, P b, P c, P d)
{
  int o1 = sgn(cross3(a, b, c)), o2 = sgn(cross3(a, b, d)),
      o3 = sgn(cross3(c, d, a)), o4 = sgn(cross3(c, d, b));
  if (o1 != o2 && o3 != o4) return true;
  if (o1 == 0 && on_box(c, a, b)) return true;
  if (o2 == 0 && on_box(d, a, b)) return true;
  if (o3 == 0 && on_box(a, c, d)) return true;
  if (o4 == 0 && on_box(b, c, d)) return true;
  return false;
}
inline double seg_seg_dist(P a, P b, P c, P d)
{
  if (seg_touch(a, b, c, d)) return 0;
  return std::min(std::min(seg_dist(a, c, d), seg_dist(b, c, d)),
                  std::min(seg_dist(c, a, b), seg_dist(d, a, b)));
}
// winding-number test
inline bool inside(P p, const std::vector<P>& poly)
{
  int w = 0; size_t n = poly.size();
  for (size_t i = 0; i < n; ++i)
  {
    P a = poly[i], b = poly[(i + 1) % n];
    if (a.y <= p.y) { if (b.y > p.y && cross3(a, b, p) > 0) ++w; }
    else            { if (b.y <= p.y && cross3(a, b, p) < 0) --w; }
  }
  return w != 0;
}
inline double poly_dist(P p, const std::vector<P>& poly)
{
  double d = 1e300; size_t n = poly.size();
  for (size_t i = 0; i < n; ++i) d = std::min(d, seg_dist(p, poly[i], poly[(i + 1) % n]));
  return d;
}
} // namespace geo
