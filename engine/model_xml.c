/* The part of libxml2 the library uses, as a document tree plus a private,
   lossless serialization of that tree (libxml2 itself is outside the check).
   Entities in xmlNodeSetContent are decoded like libxml2 does. */
#include <libxml/tree.h>
#include <libxml/parser.h>
#include <stdlib.h>
#include <string.h>

static void model_free (void * p) { free (p); }
xmlFreeFunc xmlFree = model_free;

void xmlCleanupParser (void) { }

static xmlChar * dup (const xmlChar * s, int n)
{
  xmlChar * d = malloc (n + 1);
  memcpy (d, s, n);
  d[n] = 0;
  return (d);
}
#define DUP(S) dup (S, strlen ((const char*)(S)))

xmlDocPtr xmlNewDoc (const xmlChar * v)
{
  xmlDocPtr d = calloc (1, sizeof (*d));
  d->type = XML_DOCUMENT_NODE;
  return (d);
}

xmlNodePtr xmlNewNode (xmlNsPtr ns, const xmlChar * name)
{
  xmlNodePtr n = calloc (1, sizeof (*n));
  n->type = XML_ELEMENT_NODE;
  n->name = DUP (name);
  return (n);
}

static xmlNodePtr text_node (const xmlChar * s, int len)
{
  xmlNodePtr n = calloc (1, sizeof (*n));
  n->type = XML_TEXT_NODE;
  n->name = DUP (BAD_CAST "text");
  n->content = dup (s, len);
  return (n);
}

xmlNodePtr xmlAddChild (xmlNodePtr parent, xmlNodePtr cur)
{
  cur->parent = parent;
  cur->doc = parent->doc;
  cur->prev = parent->last;
  if (parent->last)
    parent->last->next = cur;
  else
    parent->children = cur;
  parent->last = cur;
  return (cur);
}

xmlNodePtr xmlDocSetRootElement (xmlDocPtr doc, xmlNodePtr root)
{
  doc->children = doc->last = root;
  root->parent = (xmlNodePtr)doc;
  return (NULL);
}

xmlNodePtr xmlDocGetRootElement (const xmlDoc * doc) { return (doc->children); }

static int hex (int c)
{
  if (c >= '0' && c <= '9') return (c - '0');
  if (c >= 'a' && c <= 'f') return (c - 'a' + 10);
  if (c >= 'A' && c <= 'F') return (c - 'A' + 10);
  return (-1);
}

static int utf8 (xmlChar * d, unsigned c)
{
  if (c < 0x80) { d[0] = c; return (1); }
  if (c < 0x800) { d[0] = 0xC0 | (c >> 6); d[1] = 0x80 | (c & 0x3f); return (2); }
  d[0] = 0xE0 | (c >> 12); d[1] = 0x80 | ((c >> 6) & 0x3f); d[2] = 0x80 | (c & 0x3f);
  return (3);
}

void xmlNodeSetContent (xmlNodePtr n, const xmlChar * s)
{
  int len = strlen ((const char*)s), i = 0, o = 0;
  xmlChar * d = malloc (len * 2 + 1);
  static const struct { const char * e; int l; char c; } ent[] = {
    { "&amp;", 5, '&' }, { "&lt;", 4, '<' }, { "&gt;", 4, '>' }, { "&quot;", 6, '"' }, { "&apos;", 6, '\'' } };
  while (i < len)
    {
      unsigned k, v = 0;
      int j;
      if (s[i] != '&') { d[o++] = s[i++]; continue; }
      for (k = 0; k < 5; ++k)
	if (0 == strncmp ((const char*)&s[i], ent[k].e, ent[k].l))
	  break;
      if (k < 5) { d[o++] = ent[k].c; i += ent[k].l; continue; }
      if (s[i + 1] == '#' && s[i + 2] == 'x')
	{
	  for (j = i + 3; hex (s[j]) >= 0; ++j)
	    v = v * 16 + hex (s[j]);
	  if (s[j] == ';' && j > i + 3) { o += utf8 (&d[o], v); i = j + 1; continue; }
	}
      break; /* not well formed */
    }
  xmlAddChild (n, text_node (d, o));
  free (d);
}

xmlAttrPtr xmlSetProp (xmlNodePtr n, const xmlChar * name, const xmlChar * value)
{
  xmlAttrPtr a = calloc (1, sizeof (*a)), * p = &n->properties;
  a->type = XML_ATTRIBUTE_NODE;
  a->name = DUP (name);
  a->children = text_node (value, strlen ((const char*)value));
  while (*p)
    p = &(*p)->next;
  *p = a;
  return (a);
}

xmlChar * xmlGetProp (const xmlNode * n, const xmlChar * name)
{
  xmlAttrPtr a;
  for (a = n->properties; a; a = a->next)
    if (0 == strcmp ((const char*)a->name, (const char*)name))
      return (DUP (a->children->content));
  return (NULL);
}

static void free_node (xmlNodePtr n)
{
  while (n)
    {
      xmlNodePtr next = n->next;
      if (n->type == XML_ELEMENT_NODE)
	{
	  xmlAttrPtr a = n->properties;
	  while (a)
	    {
	      xmlAttrPtr an = a->next;
	      free_node (a->children);
	      free ((void*)a->name);
	      free (a);
	      a = an;
	    }
	  free_node (n->children);
	}
      free ((void*)n->name);
      free (n->content);
      free (n);
      n = next;
    }
}

void xmlFreeDoc (xmlDocPtr d)
{
  if (!d)
    return;
  free_node (d->children);
  free (d);
}

/* private serialization: \1name\3(\6attr\3value\3)*(\4text\3|child)*\2 */
struct out { xmlChar * p; int n, alloc; };
static void put (struct out * o, const xmlChar * s, int n)
{
  if (o->n + n + 1 > o->alloc)
    {
      o->alloc = 2 * (o->n + n + 64);
      o->p = realloc (o->p, o->alloc);
    }
  memcpy (o->p + o->n, s, n);
  o->n += n;
  o->p[o->n] = 0;
}
#define PUTS(O, S) put (O, S, strlen ((const char*)(S)))

static void dump (struct out * o, xmlNodePtr n)
{
  xmlAttrPtr a;
  if (n->type == XML_TEXT_NODE)
    {
      put (o, BAD_CAST "\4", 1); PUTS (o, n->content); put (o, BAD_CAST "\3", 1);
      return;
    }
  put (o, BAD_CAST "\1", 1); PUTS (o, n->name); put (o, BAD_CAST "\3", 1);
  for (a = n->properties; a; a = a->next)
    {
      put (o, BAD_CAST "\6", 1); PUTS (o, a->name); put (o, BAD_CAST "\3", 1);
      PUTS (o, a->children->content); put (o, BAD_CAST "\3", 1);
    }
  xmlNodePtr c;
  int indent = (n->children != NULL);
  for (c = n->children; c; c = c->next)
    if (c->type == XML_TEXT_NODE)
      indent = 0;
  for (c = n->children; c; c = c->next)
    {
      if (indent)
	put (o, BAD_CAST "\4\n  \3", 5);
      dump (o, c);
    }
  put (o, BAD_CAST "\2", 1);
}

void xmlDocDumpFormatMemory (xmlDocPtr d, xmlChar ** mem, int * size, int format)
{
  struct out o = { 0, 0, 0 };
  put (&o, BAD_CAST "", 0);
  if (d->children)
    dump (&o, d->children);
  *mem = o.p;
  *size = o.n;
}

/* text up to \3 */
static int bad;
static xmlChar * chunk (const xmlChar ** s)
{
  const xmlChar * b = *s;
  while (**s >= 8) ++*s;
  if (**s != 3)
    {
      bad = 1;
      return (NULL);
    }
  return (dup (b, (*s)++ - b));
}

static void name_check (const xmlChar * n) { bad |= n && !*n; }

static xmlNodePtr parse (const xmlChar ** s)
{
  ++*s;
  xmlChar * name = chunk (s), * v;
  name_check (name);
  if (bad)
    {
      free (name);
      return (NULL);
    }
  xmlNodePtr n = xmlNewNode (NULL, name);
  free (name);
  while (!bad && **s == 6)
    {
      ++*s;
      name = chunk (s);
      name_check (name);
      v = bad ? NULL : chunk (s);
      if (!bad)
	xmlSetProp (n, name, v);
      free (name);
      free (v);
    }
  while (!bad && **s != 2)
    if (**s == 4)
      {
	++*s;
	v = chunk (s);
	if (v && *v)
	  xmlAddChild (n, text_node (v, strlen ((char*)v)));
	free (v);
      }
    else if (**s == 1)
      {
	xmlNodePtr c = parse (s);
	if (c)
	  xmlAddChild (n, c);
      }
    else
      bad = 1;
  if (!bad)
    ++*s;
  return (n);
}

xmlDocPtr xmlParseMemory (const char * s, int size)
{
  const xmlChar * p = BAD_CAST s;
  if (*p != 1)
    return (NULL);
  bad = 0;
  xmlNodePtr root = parse (&p);
  xmlDocPtr d = xmlNewDoc (NULL);
  if (root)
    xmlDocSetRootElement (d, root);
  if (!bad)
    return (d);
  xmlFreeDoc (d);
  return (NULL);
}

xmlChar * xmlNodeGetContent (const xmlNode * n) { return (DUP (n->content)); }
