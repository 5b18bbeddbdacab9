/* One insertion or deletion of an arbitrary key in an arbitrary valid red-black (or AVL) tree of CNT nodes.
   Shape, colours and the order of the nodes in the pool are chosen freely; the operation's key is symbolic.
   SPINE: the path to the place of the operation is arbitrary and of that length, the subtrees beside the path are of minimal
   size below their topmost levels, which are arbitrary. Only this path and these levels are looked at by the rebalancing. */
#include "vh_sym.h"
#include "vh_mem.h"
#include <mr_btree.h>
#ifdef AVL
#define ADD mr_avltree_add
#define DEL mr_avltree_del
#define IS_VALID mr_avltree_is_valid
#define LEFT avl.left
#define RIGHT avl.right
#else
#define ADD mr_rbtree_add
#define DEL mr_rbtree_del
#define IS_VALID mr_rbtree_is_valid
#define LEFT rb.left
#define RIGHT rb.right
#endif
#ifdef SPINE
#define CNT 250
#endif
static int total = CNT;
static mr_tree_node_t * pool;
static mr_tree_t tree;
static int place[CNT + 2];

static int
cmp (const mr_ptr_t x, const mr_ptr_t y, const void * context)
{
  return ((x.intptr > y.intptr) - (x.intptr < y.intptr));
}

static int
choose (int * fits, int n)
{
  int i = vh_pick (n);
  return (fits[i]);
}

#ifdef SPINE
static int made, target, want; /* nodes are numbered in order */
#ifdef AVL
#define NODE(L, R, B) { int l_ = (L); int n_ = ++made; CHECK (n_ <= CNT, "enough room"); int r_ = (R); int b_ = (B); \
    pool[n_].avl.left = l_; pool[n_].avl.right = r_; pool[n_].avl.balanced = (b_ == 0); pool[n_].avl.longer = (b_ > 0) ? MR_RIGHT : (b_ < 0) ? MR_LEFT : BITS; return (n_); }
/* a subtree of height h, free down to the given level */
static int
beside (int h, int level)
{
  if (h <= 0)
    return (0);
  int b = (h == 1) ? 0 : (level > 0) ? vh_pick (3) - 1 : -1;
  NODE (beside (h - 1 - (b > 0), level - 1), beside (h - 1 - (b < 0), level - 1), b);
}
static int
spine (int len, int h)
{
  if (len == 0)
    {
      want = made; /* the gap behind this node */
      return (0);
    }
  bool right = vh_pick (2);
  int b = (h == 1) ? 0 : vh_pick (3) - 1;
  int ho = h - 1 - (right ? (b > 0) : (b < 0)); /* beside the path */
  int hp = h - 1 - (right ? (b < 0) : (b > 0)); /* the rest of the path */
  ASSUME (hp <= len - 1 && (len > 1 ? hp >= 1 : hp == 0) && (hp >= (len - 1 + 1) / 2));
  if (right)
    NODE (beside (ho, LEVELS), ({ if (len == target) want = made; spine (len - 1, hp); }), b)
  else
    NODE (spine (len - 1, hp), ({ if (len == target) want = made; beside (ho, LEVELS); }), b)
}
static int
root (void)
{
  int h = 1 + vh_pick (2 * SPINE);
  ASSUME (h >= SPINE);
  return (spine (SPINE, h));
}
#else
#define NODE(L, R, C) { int l_ = (L); int n_ = ++made; CHECK (n_ <= CNT, "enough room"); int r_ = (R); \
    pool[n_].rb.left = l_; pool[n_].rb.right = r_; pool[n_].rb.red = (C); return (n_); }
/* a subtree of black height bh, free down to the given level */
static int
beside (int bh, bool may_red, int level)
{
  bool red = may_red && (level > 0) && vh_pick (2);
  if (!red && bh == 0)
    return (0);
  NODE (beside (bh - !red, !red, level - 1), beside (bh - !red, !red, level - 1), red);
}
static int
spine (int len, int bh, bool may_red)
{
  if (len == 0)
    {
      ASSUME (bh == 0);
      want = made;
      return (0);
    }
  bool red = may_red && vh_pick (2);
  ASSUME (bh - !red >= 0 && bh - !red <= len - 1 && 2 * (bh - !red) + 1 >= len - 1);
  if (vh_pick (2))
    NODE (beside (bh - !red, !red, LEVELS), ({ if (len == target) want = made; spine (len - 1, bh - !red, !red); }), red)
  else
    NODE (spine (len - 1, bh - !red, !red), ({ if (len == target) want = made; beside (bh - !red, !red, LEVELS); }), red)
}
static int
root (void)
{
  return (spine (SPINE, 1 + vh_pick (SPINE), false));
}
#endif
#elif defined (AVL)
static int
min_size (int h)
{
  return (h <= 0 ? 0 : h == 1 ? 1 : 1 + min_size (h - 1) + min_size (h - 2));
}
static bool
fits_avl (int n, int h)
{
  return (h >= 0 && n >= min_size (h) && n < (1 << h));
}
/* keys lo..hi, height h */
static int
gen (int lo, int hi, int h)
{
  int fits[3 * CNT + 3], k = 0, d, r;
  if (lo > hi)
    return (0);
  for (d = -1; d <= 1; ++d)
    for (r = lo; r <= hi; ++r)
      if (fits_avl (r - lo, h - 1 - (d > 0)) && fits_avl (hi - r, h - 1 - (d < 0)))
	fits[k++] = (r << 2) + d + 1;
  k = choose (fits, k);
  d = (k & 3) - 1;
  r = k >> 2;
  mr_tree_node_t * node = &pool[place[r]];
  node->avl.left = gen (lo, r - 1, h - 1 - (d > 0));
  node->avl.right = gen (r + 1, hi, h - 1 - (d < 0));
  node->avl.balanced = (d == 0);
  node->avl.longer = (d > 0) ? MR_RIGHT : (d < 0) ? MR_LEFT : BITS;
  return (place[r]);
}
static int
root (int n)
{
  int fits[CNT + 2], k = 0, h;
  for (h = 0; h <= CNT; ++h)
    if (fits_avl (n, h))
      fits[k++] = h;
  return (gen (1, n, choose (fits, k)));
}
#else
/* black height bh, root black or red */
static bool
fits_rb (int n, int bh, bool red)
{
  if (bh < 0)
    return (false);
  if (red)
    return (n >= 1 && (n - 1 >= 2 * ((1 << bh) - 1)) && (n - 1 <= 2 * ((1 << (2 * bh)) - 1)));
  return ((n >= (1 << bh) - 1) && (n <= (1 << (2 * bh)) - 1));
}
static int
gen (int lo, int hi, int bh, bool red)
{
  int fits[4 * CNT + 4], k = 0, r, c;
  if (lo > hi)
    return (0);
  int b = bh - !red;
  for (r = lo; r <= hi; ++r)
    for (c = 0; c < (red ? 1 : 4); ++c)
      if (fits_rb (r - lo, b, c & 1) && fits_rb (hi - r, b, c >> 1))
	fits[k++] = (r << 2) + c;
  k = choose (fits, k);
  r = k >> 2;
  mr_tree_node_t * node = &pool[place[r]];
  node->rb.left = gen (lo, r - 1, b, k & 1);
  node->rb.right = gen (r + 1, hi, b, (k >> 1) & 1);
  node->rb.red = red;
  return (place[r]);
}
static int
root (int n)
{
  int fits[CNT + 2], k = 0, bh;
  for (bh = 0; bh <= CNT; ++bh)
    if (fits_rb (n, bh, false))
      fits[k++] = bh;
  return (gen (1, n, choose (fits, k), false));
}
#endif

/* height of a valid subtree (black height of a red-black one), -1 otherwise */
static int reached;
static intptr_t walked[CNT + 2];
static int
height (unsigned idx, unsigned count, int depth, bool parent_red)
{
  if (0 == idx)
    return (0);
  CHECK (idx < count && depth > 0 && reached <= total, "links stay inside the pool and form no cycle");
  bool red = false;
#ifndef AVL
  red = tree.pool[idx].rb.red;
  CHECK (!(red && parent_red), "no red node has a red parent");
#endif
  int l = height (tree.pool[idx].LEFT, count, depth - 1, red);
  CHECK (reached <= total, "every node is reached once");
  walked[reached++] = tree.pool[idx].key.intptr;
  int r = height (tree.pool[idx].RIGHT, count, depth - 1, red);
#ifdef AVL
  CHECK (tree.pool[idx].avl.balanced == (l == r), "balance flag");
  CHECK (l - r <= 1 && r - l <= 1, "subtrees are balanced");
  CHECK (l == r || tree.pool[idx].avl.longer == (l > r ? MR_LEFT : MR_RIGHT), "longer subtree");
  return ((l > r ? l : r) + 1);
#else
  CHECK (l == r, "equal black heights");
  return (l + !red);
#endif
}

static intptr_t got[CNT + 3];
static int gots;
static mr_status_t
visit (mr_ptr_t key, void * context)
{
  CHECK (gots < total + 2, "walk visits members only");
  got[gots++] = key.intptr;
  return (MR_SUCCESS);
}

#define KEY(I) ((I) * 8)
void
harness (void)
{
  int i, n = CNT, rot = 0, rev = 0;
  vh_mem_start ();
  mr_tree_init (&tree);
#ifdef SPINE
  CHECK (MR_SUCCESS == mr_tree_reserve (&tree, CNT, true), "room reserved");
  pool = tree.pool;
  memset (pool, 0, (CNT + 1) * sizeof (pool[0]));
#ifdef DELETE
  target = 1 + vh_pick (SPINE);
#endif
  int top = root ();
  pool[0].root.idx = top;
  n = total = made;
  for (i = 1; i <= total; ++i)
    pool[i].key.intptr = KEY (i);
  tree.size = (total + 1) * sizeof (pool[0]);
#elif CNT > 0
#ifdef ALLROT
  rot = vh_pick (CNT);
  rev = vh_pick (2);
#else
  i = vh_pick (3);
  rot = (i == 1) ? CNT / 2 : 0;
  rev = (i == 2);
#endif
  for (i = 1; i <= CNT; ++i)
    place[i] = rev ? 1 + (CNT - i + rot) % CNT : 1 + (i - 1 + rot) % CNT;
  CHECK (MR_SUCCESS == mr_tree_reserve (&tree, CNT, true), "room reserved");
  pool = tree.pool;
  memset (pool, 0, (CNT + 1) * sizeof (pool[0]));
  for (i = 1; i <= CNT; ++i)
    pool[place[i]].key.intptr = KEY (i);
  tree.size = (CNT + 1) * sizeof (pool[0]);
  pool[0].root.idx = root (CNT);
#endif
  CHECK (IS_VALID (&tree, cmp, NULL), "validity check accepts a valid tree");
#ifdef SPINE
  intptr_t key = KEY (want) + !target;
#else
  intptr_t key = SYM (intptr_t);
#endif
  ASSUME (key >= -1 && key <= KEY (total + 1));
  bool was = (key >= KEY (1)) && (key <= KEY (total)) && !(key & 7);
  mr_ptr_t k = { .intptr = key };
#ifdef OOM
  vh_fail = vh_pick (2) - 1;
  vh_allocs = 0;
#endif
#ifdef DELETE
  mr_status_t st = DEL (k, &tree, cmp, NULL);
  CHECK ((MR_SUCCESS == st) == was, "delete tells whether the key was a member");
  bool is = false;
#else
  mr_ptr_t * add = ADD (k, &tree, cmp, NULL);
  CHECK (add != NULL || vh_failed, "insert succeeds");
  CHECK (add == NULL || add->intptr == key, "insert returns the element");
  CHECK (!was || add != NULL, "a member is found without allocation");
  bool is = (add != NULL);
#endif
  n += is - was;
  vh_fail = -1;
  unsigned count = tree.size / sizeof (tree.pool[0]);
  CHECK (count == n + 1 || (n == 0 && count == 0), "one node per element");
  reached = 0;
  if (count)
    {
#ifndef AVL
      CHECK (!tree.pool[tree.pool[0].root.idx].rb.red || tree.pool[0].root.idx == 0, "root is black");
#endif
      height (tree.pool[0].root.idx, count, total + 2, false);
    }
  CHECK (reached == n, "every node is reached");
  /* exactly the expected elements in order */
  gots = 0;
  CHECK (MR_SUCCESS == mr_tree_walk (&tree, visit, NULL), "walk succeeds");
  CHECK (gots == n, "walk visits every element");
  int at = 0;
  bool seen = false;
  for (i = 1; i <= total + 1; ++i)
    {
      if (is && !was && !seen && (i > total || key < KEY (i)))
	{
	  CHECK (walked[at] == key && got[at] == key, "the new element is in its place");
	  at++;
	  seen = true;
	}
      if (i > total || (was && !is && key == KEY (i)))
	continue;
      CHECK (walked[at] == KEY (i) && got[at] == KEY (i), "elements are in order");
      at++;
    }
  for (i = 1; i <= total; ++i)
    {
      mr_tree_traverse_t t;
      mr_tree_find ((mr_ptr_t) { .intptr = KEY (i) }, &tree, cmp, NULL, &t);
      CHECK (t.equal == (is || !(was && key == KEY (i))), "lookup finds exactly the members");
    }
  CHECK (IS_VALID (&tree, cmp, NULL), "validity check accepts the tree");
  mr_tree_free (&tree);
  CHECK (vh_live == 0, "all memory is released");
  WITNESS ();
}
