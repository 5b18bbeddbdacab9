/* Pointer graphs: the image of a graph, loaded back, is isomorphic to it (nulls, sharing, cycles).
   OP=COPY: the same for deep copies, which moreover share nothing with the source.
   KIND 0: nodes with two links; 1: pointers to members and separate integers; 2: strings; 3: pointers into a sized array;
   4: arrays of pointers; 9: pointers to pointers (SHARE: to a pointer which is also reached otherwise); 5: links to a union / to an anonymous member. */
#include "vh_sym.h"
#include "vh_mem.h"
#ifdef FMT
#include "fmt.h"
#endif
#ifndef NODES
#define NODES 3
#endif

#if KIND == 0
TYPEDEF_STRUCT (node_t, (int, id), (node_t *, l), (node_t *, r))
#define ROOT node_t
#elif KIND == 1
TYPEDEF_STRUCT (root_t, (int, x), (int *, p), (int, y), (int *, q), (int *, r))
#define ROOT root_t
#elif KIND == 2
TYPEDEF_STRUCT (root_t, (char *, a), (string_t, b), (char *, c))
#define ROOT root_t
#elif KIND == 3
TYPEDEF_STRUCT (item_t, (int, v), (item_t *, next))
TYPEDEF_STRUCT (root_t, (item_t *, data, , , { "size" }, "string"), (size_t, size), (item_t *, p))
#define ROOT root_t
#elif KIND == 4
TYPEDEF_STRUCT (leaf_t, (int, v))
TYPEDEF_STRUCT (root_t, (leaf_t *, p, [2]), (leaf_t, in), (leaf_t *, q))
#define ROOT root_t
#elif KIND == 5
TYPEDEF_STRUCT (root_t, (char, arr, [4]), (char *, s), (string_t *, ps), (char *, t))
#define ROOT root_t
#elif KIND == 6
TYPEDEF_STRUCT (leaf_t, (int, v))
TYPEDEF_STRUCT (root_t, (void *, p), (leaf_t *, a), (leaf_t, in), (void *, q))
#define ROOT root_t
#elif KIND == 9
TYPEDEF_STRUCT (root_t, (int, x), (int *, b), (int **, c), (root_t **, e), (char **, t), (int *, last))
#define ROOT root_t
#elif KIND == 8
TYPEDEF_STRUCT (win_t, (int16_t *, data, , , { "size" }, "string"), (uint8_t, size))
TYPEDEF_STRUCT (root_t, (win_t, w, [WINS]))
#define ROOT root_t
#elif KIND == 7
TYPEDEF_UNION (u_t, (int, i), (struct root_t *, up), (int *, pi))
TYPEDEF_STRUCT (root_t, (int, x), (int, k), (u_t, u, , "k"), (struct root_t *, self))
#define ROOT root_t
#endif

static mr_status_t
transfer (ROOT * s, ROOT * d)
{
#ifdef FMT
  mr_rarray_t ra = SAVE (ROOT, s);
  CHECK (ra.data.ptr != NULL, "save succeeds");
#endif
#ifdef OOM
  vh_allocs = 0;
#ifdef FMT
  CHECK (MR_SUCCESS == LOAD (ROOT, ra, d), "load or copy succeeds");
#else
  CHECK (MR_SUCCESS == MR_COPY_RECURSIVELY (ROOT, s, d), "load or copy succeeds");
#endif
  int n = vh_allocs; /* as many allocations as there are may fail */
  MR_FREE_RECURSIVELY (ROOT, d);
  memset (d, 0x5a, sizeof (*d));
  vh_allocs = 0;
  vh_fail = vh_pick (n + 1);
#endif
#ifdef FMT
  mr_status_t st = LOAD (ROOT, ra, d);
#else
  mr_status_t st = MR_COPY_RECURSIVELY (ROOT, s, d);
#endif
#ifdef OOM
  vh_fail = -1;
#endif
#ifdef FMT
  MR_FREE (ra.data.ptr);
#endif
#ifdef OOM
  CHECK (MR_SUCCESS == st || vh_failed, "load or copy succeeds");
#else
  CHECK (MR_SUCCESS == st, "load or copy succeeds");
#endif
  return (st);
}

#ifdef LEAKS /* only the ownership of memory: what the operation allocates is released exactly once */
#define TRANSFER(S, D) { vh_mem_start (); transfer (S, D); MR_FREE_RECURSIVELY (ROOT, D); CHECK (vh_live == 0, "everything is released"); WITNESS (); return; }
#elif defined (OOM) /* one allocation fails: a failure is reported and nothing is lost, a success is a complete one */
#ifdef FMT
#define DROP(D) MR_FREE_RECURSIVELY (ROOT, D) /* whatever was loaded before the failure */
#else
#define DROP(D) (void) 0
#endif
#define TRANSFER(S, D) { vh_mem_start (); if (MR_SUCCESS != transfer (S, D)) { DROP (D); CHECK (vh_live == 0, "everything is released"); WITNESS (); return; } }
#else
#define TRANSFER(S, D) transfer (S, D)
#endif

void
harness (void)
{
  int i, j;
  ROOT d;
  memset (&d, 0x5a, sizeof (d));
#if KIND == 0
  node_t n[NODES];
  node_t * map[NODES];
  int todo[2 * NODES + 2], cnt = 0;
  memset (n, 0, sizeof (n));
  for (i = 0; i < NODES; ++i)
    {
      n[i].id = 100 + i;
      map[i] = NULL;
    }
  /* every link is chosen when its node is first reached */
  bool seen[NODES];
  int head = 0;
  memset (seen, 0, sizeof (seen));
  seen[0] = true;
  todo[cnt++] = 0;
  while (head < cnt)
    {
      node_t * x = &n[todo[head++]];
      for (j = 0; j < 2; ++j)
	{
	  int t = vh_pick (NODES + 1);
	  if (t < NODES)
	    {
	      /* nodes are numbered in the order in which they are reached */
	      ASSUME (t == 0 || seen[t - 1]);
	      *(j ? &x->r : &x->l) = &n[t];
	      if (!seen[t])
		{
		  seen[t] = true;
		  todo[cnt++] = t;
		}
	    }
	}
    }
  TRANSFER (&n[0], &d);
  map[0] = &d;
  for (i = 0; i < cnt; ++i)
    {
      node_t * a = &n[todo[i]];
      node_t * b = map[todo[i]];
      CHECK (b != NULL && b->id == a->id, "node content");
      for (j = 0; j < 2; ++j)
	{
	  node_t * at = j ? a->r : a->l;
	  node_t * bt = j ? b->r : b->l;
	  CHECK ((at == NULL) == (bt == NULL), "null links stay null, others do not");
	  if (at)
	    {
	      int k = at - n;
	      int m;
	      for (m = 0; m < NODES; ++m)
		CHECK (bt != &n[m], "nothing shared with the source");
	      if (map[k])
		CHECK (map[k] == bt, "shared and cyclic links");
	      else
		{
		  for (m = 0; m < NODES; ++m)
		    CHECK (map[m] != bt, "different nodes stay different");
		  map[k] = bt;
		}
	    }
	}
    }
  if (1)
    { /* the root itself is not on the heap */
      MR_FREE_RECURSIVELY (node_t, &d);
    }
#elif KIND == 1
  root_t s;
  int h1 = 41, h2 = 42;
  memset (&s, 0, sizeof (s));
  s.x = 1;
  s.y = 2;
  int * tgt[5] = { &s.x, &s.y, &h1, &h2, NULL };
  int ** sp[3] = { &s.p, &s.q, &s.r };
  int ch[3];
  for (i = 0; i < 3; ++i)
    *sp[i] = tgt[ch[i] = vh_pick (5)];
  TRANSFER (&s, &d);
  int ** dp[3] = { &d.p, &d.q, &d.r };
  CHECK (d.x == 1 && d.y == 2, "node content");
  for (i = 0; i < 3; ++i)
    {
      CHECK ((*sp[i] == NULL) == (*dp[i] == NULL), "null links stay null, others do not");
      if (*sp[i])
	{
	  CHECK (**sp[i] == **dp[i], "node content");
	  CHECK ((*dp[i] == &d.x) == (ch[i] == 0) && (*dp[i] == &d.y) == (ch[i] == 1), "pointers to members");
	  CHECK (*dp[i] != *sp[i], "nothing shared with the source");
	  for (j = 0; j < i; ++j)
	    CHECK ((ch[i] == ch[j]) == (*dp[i] == *dp[j]), "shared and cyclic links");
	}
    }
  MR_FREE_RECURSIVELY (root_t, &d);
#elif KIND == 2
  root_t s;
  char t1[] = "one", t2[] = "", t3[] = "one";
  char * tgt[4] = { t1, t2, t3, NULL };
  char ** sp[3] = { &s.a, &s.b, &s.c };
  int ch[3];
  for (i = 0; i < 3; ++i)
    *sp[i] = tgt[ch[i] = vh_pick (4)];
  TRANSFER (&s, &d);
  char ** dp[3] = { &d.a, &d.b, &d.c };
  for (i = 0; i < 3; ++i)
    {
      CHECK ((*sp[i] == NULL) == (*dp[i] == NULL), "null links stay null, others do not");
      if (*sp[i])
	{
	  CHECK (0 == strcmp (*sp[i], *dp[i]), "node content");
	  CHECK (*sp[i] != *dp[i], "nothing shared with the source");
	  for (j = 0; j < i; ++j)
	    CHECK ((ch[i] == ch[j]) == (*dp[i] == *dp[j]), "shared and cyclic links");
	}
    }
  MR_FREE_RECURSIVELY (root_t, &d);
#elif KIND == 3
  root_t s;
  item_t it[2], other;
  memset (&s, 0, sizeof (s));
  memset (it, 0, sizeof (it));
  memset (&other, 0, sizeof (other));
  it[0].v = 7;
  it[1].v = 8;
  other.v = 9;
  item_t * tgt[4] = { &it[0], &it[1], &other, NULL };
  item_t ** sp[4] = { &it[0].next, &it[1].next, &s.p, &other.next };
  int ch[4];
  bool uses = false;
  s.data = it;
  s.size = sizeof (it);
  for (i = 0; i < 3; ++i)
    {
      *sp[i] = tgt[ch[i] = vh_pick (4)];
      uses |= ch[i] == 2;
    }
  if (uses)
    other.next = tgt[ch[3] = vh_pick (4)];
  TRANSFER (&s, &d);
  CHECK (d.data && d.size == sizeof (it), "array and its size");
  CHECK (d.data != it && d.data[0].v == 7 && d.data[1].v == 8, "node content");
  item_t * dother = NULL;
  item_t ** dp[4] = { &d.data[0].next, &d.data[1].next, &d.p, NULL };
  for (i = 0; i < 4; ++i)
    {
      if (i == 3)
	{
	  if (!uses)
	    break;
	  dp[3] = &dother->next;
	}
      CHECK ((ch[i] == 3) == (*dp[i] == NULL), "null links stay null, others do not");
      CHECK ((ch[i] == 0) == (*dp[i] == &d.data[0]) && (ch[i] == 1) == (*dp[i] == &d.data[1]), "links into the array");
      if (ch[i] == 2)
	{
	  CHECK (*dp[i] != &other && (*dp[i])->v == 9, "node content");
	  CHECK (dother == NULL || dother == *dp[i], "shared and cyclic links");
	  dother = *dp[i];
	}
    }
  MR_FREE_RECURSIVELY (root_t, &d);
#elif KIND == 4
  root_t s;
  leaf_t h1 = { 41 }, h2 = { 42 };
  memset (&s, 0, sizeof (s));
  s.in.v = 1;
  leaf_t * tgt[4] = { &s.in, &h1, &h2, NULL };
  leaf_t ** sp[3] = { &s.p[0], &s.p[1], &s.q };
  leaf_t ** dp[3] = { &d.p[0], &d.p[1], &d.q };
  int ch[3];
  for (i = 0; i < 3; ++i)
    *sp[i] = tgt[ch[i] = vh_pick (4)];
  TRANSFER (&s, &d);
  for (i = 0; i < 3; ++i)
    {
      CHECK ((ch[i] == 3) == (*dp[i] == NULL), "null links stay null, others do not");
      if (ch[i] == 3)
	continue;
      CHECK ((*dp[i])->v == tgt[ch[i]]->v, "node content");
      CHECK (*dp[i] != *sp[i], "nothing shared with the source");
      CHECK ((ch[i] == 0) == (*dp[i] == &d.in), "links to members");
      for (j = 0; j < i; ++j)
	CHECK ((ch[i] == ch[j]) == (*dp[i] == *dp[j]), "shared and cyclic links");
    }
  MR_FREE_RECURSIVELY (root_t, &d);
#elif KIND == 5
  root_t s;
  char t1[] = "one", t2[] = "two";
  string_t ext;
  memset (&s, 0, sizeof (s));
  strcpy (s.arr, "abc");
  char * tgt[4] = { s.arr, t1, t2, NULL };
  int cs = vh_pick (4), ct = vh_pick (4), cp = vh_pick (4), ce = 3;
  s.s = tgt[cs];
  s.t = tgt[ct];
  string_t * ptgt[4] = { &s.s, &s.t, &ext, NULL };
  s.ps = ptgt[cp];
  if (cp == 2)
    ext = tgt[ce = vh_pick (4)];
  TRANSFER (&s, &d);
  CHECK (0 == strcmp (d.arr, "abc"), "node content");
  CHECK ((cp == 3) == (d.ps == NULL), "null links stay null, others do not");
  CHECK ((cp == 0) == (d.ps == &d.s) && (cp == 1) == (d.ps == &d.t), "links to strings");
  char * got[3] = { d.s, d.t, d.ps ? *d.ps : NULL };
  int want[3] = { cs, ct, cp == 0 ? cs : cp == 1 ? ct : ce };
  for (i = 0; i < 3; ++i)
    {
      CHECK ((want[i] == 3) == (got[i] == NULL), "null strings stay null");
      if (want[i] == 3)
	continue;
      CHECK (0 == strcmp (got[i], tgt[want[i]]), "string content");
      CHECK (got[i] != tgt[want[i]], "nothing shared with the source");
      for (j = 0; j < i; ++j)
	CHECK ((want[i] == want[j]) == (got[i] == got[j]), "shared and cyclic links");
    }
  MR_FREE_RECURSIVELY (root_t, &d);
#elif KIND == 9
  root_t s;
  int h1 = 41, h2 = 42;
  int * tgt[4] = { NULL, &s.x, &h1, &h2 };
  int * p0;
  root_t o, * pp;
  memset (&o, 0, sizeof (o));
  o.x = 2;
  char * str;
  memset (&s, 0, sizeof (s));
  s.x = 1;
  s.c = &p0;
  s.e = &pp;
  pp = NULL;
  s.t = &str;
#ifdef SHARE
  s.b = tgt[1];
  p0 = tgt[2];
  str = NULL;
  int how = vh_pick (3);
  pp = &o;
  if (how == 0)
    {
      s.c = &s.b;
      s.e = NULL;
    }
  else if (how == 1)
    o.c = s.c;
  else
    s.c = NULL;
  TRANSFER (&s, &d);
  if (s.e)
    CHECK (d.e && *d.e && d.c == (*d.e)->c, "two pointers to the same pointer");
  else
    CHECK (d.c == &d.b, "two pointers to the same pointer");
#else
  int cb = vh_pick (4), cc = vh_pick (5), ce = vh_pick (4), ct = vh_pick (3);
  s.b = tgt[cb];
  s.last = tgt[3 - cb];
  if (cc < 4)
    p0 = tgt[cc];
  else
    s.c = NULL;
  if (ce < 3)
    pp = (ce == 0) ? NULL : (ce == 1) ? &s : &o;
  else
    s.e = NULL;
  o.b = tgt[3];
  str = ct ? "ab" : NULL;
  if (ct == 2)
    s.t = NULL;
  TRANSFER (&s, &d);
  CHECK (d.x == 1, "node content");
  CHECK ((s.c == NULL) == (d.c == NULL) && (s.e == NULL) == (d.e == NULL) && (s.t == NULL) == (d.t == NULL), "null links stay null, others do not");
  CHECK (!s.c || d.c != s.c, "nothing shared with the source");
  if (s.e)
    {
      CHECK (d.e != s.e && (*d.e == NULL) == (pp == NULL), "null links stay null, others do not");
      CHECK (pp != &s || *d.e == &d, "cyclic links");
      CHECK (pp != &o || (*d.e != &o && (*d.e)->x == 2 && (*d.e)->b != &h2), "node content, nothing shared with the source");
    }
  if (s.t)
    {
      CHECK (d.t != s.t && (*d.t == NULL) == (str == NULL), "null links stay null, others do not");
      CHECK (!str || (*d.t != str && 0 == strcmp (*d.t, str)), "string content");
    }
  int * sv[4] = { s.b, s.last, s.c ? *s.c : NULL, s.e && *s.e ? (*s.e)->b : NULL };
  int * dv[4] = { d.b, d.last, d.c ? *d.c : NULL, d.e && *d.e ? (*d.e)->b : NULL };
  for (i = 0; i < 4; ++i)
    {
      CHECK ((sv[i] == NULL) == (dv[i] == NULL), "null links stay null, others do not");
      if (!sv[i])
	continue;
      CHECK (*sv[i] == *dv[i] && sv[i] != dv[i], "node content, nothing shared with the source");
      CHECK ((sv[i] == &s.x) == (dv[i] == &d.x), "links to members");
      for (j = 0; j < i; ++j)
	CHECK ((sv[i] == sv[j]) == (dv[i] == dv[j]), "shared links");
    }
#endif
  MR_FREE_RECURSIVELY (root_t, &d);
#elif KIND == 6
  root_t s;
  leaf_t h1 = { 41 };
  memset (&s, 0, sizeof (s));
  s.in.v = 1;
  int cp = vh_pick (4), cq = vh_pick (4), ca = vh_pick (3);
  leaf_t * atgt[3] = { &s.in, &h1, NULL };
  s.a = atgt[ca];
  void * tgt[4] = { &s.in, &h1, NULL, &s.a };
  s.p = tgt[cp];
  s.q = tgt[cq];
  TRANSFER (&s, &d);
  CHECK ((ca == 0) == (d.a == &d.in) && (ca == 2) == (d.a == NULL), "typed links");
  CHECK (ca == 2 || d.a->v == s.a->v, "node content");
  void * got[2] = { d.p, d.q };
  int want[2] = { cp, cq };
  for (i = 0; i < 2; ++i)
    {
      if (want[i] == 0)
	CHECK (got[i] == &d.in, "untyped links to members");
      else if (want[i] == 3)
	CHECK (got[i] == &d.a, "untyped links to pointers");
      else if (want[i] == 1 && ca == 1)
	CHECK (got[i] == d.a, "untyped links to nodes known by a typed link");
      else if (want[i] == 2)
	CHECK (got[i] == NULL, "null links stay null");
    }
#elif KIND == 7
  root_t s, o;
  int h = 42;
  memset (&s, 0, sizeof (s));
  memset (&o, 0, sizeof (o));
  root_t * rt[3] = { &s, &o, NULL };
  int * it[5] = { &s.x, &s.k, &h, NULL, &o.x };
  root_t * both[2] = { &s, &o };
  int cs = vh_pick (3), ck[2] = { 0, 0 }, cv[2] = { 0, 0 };
  s.self = rt[cs];
  s.x = 5;
  o.x = 6;
  for (i = 0; i < 2; ++i)
    {
      if (i && !(cs == 1 || (ck[0] == 1 && cv[0] == 1)))
	break;
      both[i]->k = ck[i] = vh_pick (3);
      if (ck[i] == 0)
	both[i]->u.i = 77;
      else if (ck[i] == 1)
	both[i]->u.up = rt[cv[i] = vh_pick (3)];
      else
	both[i]->u.pi = it[cv[i] = vh_pick (4)];
    }
  bool reach = cs == 1 || (ck[0] == 1 && cv[0] == 1);
  TRANSFER (&s, &d);
  CHECK (d.x == 5 && d.k == ck[0], "node content");
  CHECK ((cs == 0) == (d.self == &d) && (cs == 2) == (d.self == NULL), "links to the root");
  root_t * dother = cs == 1 ? d.self : (ck[0] == 1 && cv[0] == 1) ? d.u.up : NULL;
  root_t * db[2] = { &d, dother };
  int * dh = NULL;
  CHECK (!reach || (dother != NULL && dother != &o && dother->x == 6 && dother->k == ck[1]), "node content");
  for (i = 0; i < 2; ++i)
    {
      if (i && !reach)
	break;
      if (ck[i] == 0)
	CHECK (db[i]->u.i == 77, "union content");
      else if (ck[i] == 1)
	CHECK (db[i]->u.up == (cv[i] == 0 ? &d : cv[i] == 1 ? dother : NULL), "union links to structures");
      else
	{
	  int * p = db[i]->u.pi;
	  CHECK ((cv[i] == 0) == (p == &d.x) && (cv[i] == 1) == (p == &d.k) && (cv[i] == 3) == (p == NULL), "union links to members");
	  if (cv[i] == 2)
	    {
	      CHECK (p != &h && *p == 42 && (dh == NULL || dh == p), "union links to values");
	      dh = p;
	    }
	}
    }
#elif KIND == 8
  /* overlapping windows into one buffer of LEN elements */
  root_t s;
  int16_t buf[LEN];
  int st[WINS], n[WINS];
  memset (&s, 0, sizeof (s));
  for (i = 0; i < LEN; ++i)
    buf[i] = i * 100 + 1;
  for (i = 0; i < WINS; ++i)
    {
      st[i] = vh_pick (LEN);
      n[i] = 1 + vh_pick (LEN - st[i]);
      s.w[i].data = &buf[st[i]];
      s.w[i].size = n[i] * sizeof (buf[0]);
    }
#ifdef NESTED
  for (i = 0; i < WINS; ++i)
    for (j = 0; j < i; ++j)
      ASSUME ((st[i] >= st[j] + n[j]) || (st[j] >= st[i] + n[i]) ||
	      ((st[i] <= st[j]) && (st[i] + n[i] >= st[j] + n[j])) || ((st[j] <= st[i]) && (st[j] + n[j] >= st[i] + n[i])));
#endif
  TRANSFER (&s, &d);
  bool own = true;
  for (i = 0; i < WINS; ++i)
    {
      int end = st[i] + n[i]; /* up to here reach the windows which start inside this one */
      for (j = 0; j < WINS; ++j)
	if ((st[j] >= st[i]) && (st[j] < st[i] + n[i]) && (st[j] + n[j] > end))
	  end = st[j] + n[j];
      CHECK (d.w[i].data != NULL, "window");
      if (end == st[i] + n[i])
	CHECK (d.w[i].size == s.w[i].size, "window size");
      else
	{
	  CHECK (d.w[i].size == s.w[i].size || d.w[i].size == (end - st[i]) * sizeof (buf[0]), "size of a window or of the merged block");
	  own = own && (d.w[i].size == s.w[i].size);
	}
      for (j = 0; j < n[i]; ++j)
	CHECK (d.w[i].data[j] == s.w[i].data[j], "window content");
      CHECK (d.w[i].data + n[i] <= buf || d.w[i].data >= buf + LEN, "nothing shared with the source");
      for (j = 0; j < i; ++j)
	if ((st[i] < st[j] + n[j]) && (st[j] < st[i] + n[i]))
	  CHECK (d.w[i].data - d.w[j].data == st[i] - st[j], "overlapping windows still overlap");
    }
  CHECK (own, "size of a window which another window extends");
  MR_FREE_RECURSIVELY (root_t, &d);
#endif
  WITNESS ();
}
