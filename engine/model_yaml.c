/* The part of libyaml the library uses: the emitter writes the events in a
   private lossless form, the parser reads them back.  Scanning and emitting of
   YAML text is libyaml's own business and outside the check. */
#include <yaml.h>
#include <stdlib.h>
#include <string.h>

static yaml_char_t * dup (const yaml_char_t * s, size_t n)
{
  yaml_char_t * d = malloc (n + 1);
  memcpy (d, s, n);
  d[n] = 0;
  return (d);
}
static yaml_char_t * dups (const yaml_char_t * s) { return (s ? dup (s, strlen ((const char*)s)) : NULL); }

#define EV(TYPE) memset (e, 0, sizeof (*e)); e->type = TYPE
int yaml_stream_start_event_initialize (yaml_event_t * e, yaml_encoding_t enc) { EV (YAML_STREAM_START_EVENT); return (1); }
int yaml_stream_end_event_initialize (yaml_event_t * e) { EV (YAML_STREAM_END_EVENT); return (1); }
int yaml_document_start_event_initialize (yaml_event_t * e, yaml_version_directive_t * v, yaml_tag_directive_t * a, yaml_tag_directive_t * b, int impl) { EV (YAML_DOCUMENT_START_EVENT); return (1); }
int yaml_document_end_event_initialize (yaml_event_t * e, int impl) { EV (YAML_DOCUMENT_END_EVENT); return (1); }
int yaml_alias_event_initialize (yaml_event_t * e, const yaml_char_t * anchor) { EV (YAML_ALIAS_EVENT); e->data.alias.anchor = dups (anchor); return (1); }
int yaml_scalar_event_initialize (yaml_event_t * e, const yaml_char_t * anchor, const yaml_char_t * tag, const yaml_char_t * value, int length, int pi, int qi, yaml_scalar_style_t style)
{
  EV (YAML_SCALAR_EVENT);
  e->data.scalar.anchor = dups (anchor);
  e->data.scalar.value = dup (value, length);
  e->data.scalar.length = length;
  return (1);
}
int yaml_sequence_start_event_initialize (yaml_event_t * e, const yaml_char_t * anchor, const yaml_char_t * tag, int implicit, yaml_sequence_style_t style) { EV (YAML_SEQUENCE_START_EVENT); e->data.sequence_start.anchor = dups (anchor); return (1); }
int yaml_mapping_start_event_initialize (yaml_event_t * e, const yaml_char_t * anchor, const yaml_char_t * tag, int implicit, yaml_mapping_style_t style) { EV (YAML_MAPPING_START_EVENT); e->data.mapping_start.anchor = dups (anchor); return (1); }
int yaml_sequence_end_event_initialize (yaml_event_t * e) { EV (YAML_SEQUENCE_END_EVENT); return (1); }
int yaml_mapping_end_event_initialize (yaml_event_t * e) { EV (YAML_MAPPING_END_EVENT); return (1); }

void yaml_event_delete (yaml_event_t * e)
{
  switch (e->type)
    {
    case YAML_ALIAS_EVENT: free (e->data.alias.anchor); break;
    case YAML_SCALAR_EVENT: free (e->data.scalar.anchor); free (e->data.scalar.value); break;
    case YAML_SEQUENCE_START_EVENT: free (e->data.sequence_start.anchor); break;
    case YAML_MAPPING_START_EVENT: free (e->data.mapping_start.anchor); break;
    default: break;
    }
  memset (e, 0, sizeof (*e));
}

int yaml_emitter_initialize (yaml_emitter_t * em) { memset (em, 0, sizeof (*em)); return (1); }
void yaml_emitter_delete (yaml_emitter_t * em) { memset (em, 0, sizeof (*em)); }
void yaml_emitter_set_output (yaml_emitter_t * em, yaml_write_handler_t * h, void * data)
{
  em->write_handler = h;
  em->write_handler_data = data;
}

static int out (yaml_emitter_t * em, const yaml_char_t * s, size_t n)
{
  if (em->write_handler (em->write_handler_data, (unsigned char*)s, n))
    return (1);
  em->error = YAML_WRITER_ERROR;
  em->problem = "write error";
  return (0);
}

/* strings: \1 absent, \2 text \3 */
static int outs (yaml_emitter_t * em, const yaml_char_t * s)
{
  if (!s)
    return (out (em, (const yaml_char_t*)"\1", 1));
  return (out (em, (const yaml_char_t*)"\2", 1) && out (em, s, strlen ((const char*)s)) && out (em, (const yaml_char_t*)"\3", 1));
}

int yaml_emitter_emit (yaml_emitter_t * em, yaml_event_t * e)
{
  yaml_char_t tag = 'A' + e->type;
  int ok = out (em, &tag, 1);
  if (ok)
    switch (e->type)
      {
      case YAML_ALIAS_EVENT: ok = outs (em, e->data.alias.anchor); break;
      case YAML_SCALAR_EVENT: ok = outs (em, e->data.scalar.anchor) && outs (em, e->data.scalar.value); break;
      case YAML_SEQUENCE_START_EVENT: ok = outs (em, e->data.sequence_start.anchor); break;
      case YAML_MAPPING_START_EVENT: ok = outs (em, e->data.mapping_start.anchor); break;
      case YAML_STREAM_END_EVENT: ok = out (em, (const yaml_char_t*)"\n", 1); break;
      default: break;
      }
  yaml_event_delete (e);
  return (ok);
}

int yaml_parser_initialize (yaml_parser_t * p) { memset (p, 0, sizeof (*p)); return (1); }
void yaml_parser_delete (yaml_parser_t * p) { memset (p, 0, sizeof (*p)); }
void yaml_parser_set_input_string (yaml_parser_t * p, const unsigned char * s, size_t size)
{
  p->input.string.start = p->input.string.current = s;
  p->input.string.end = s + size;
}

/* The parser delivers what libyaml delivers for any input: a well-formed sequence of events or an error. */
static int depth, bad;
static struct { int type; int items; } open_[64];

static yaml_char_t * ins (yaml_parser_t * p, int anchor)
{
  const unsigned char * b, * c, * end = p->input.string.end;
  if (p->input.string.current >= end || *p->input.string.current < 1 || *p->input.string.current > 2)
    {
      bad = 1;
      return (NULL);
    }
  if (*p->input.string.current++ == 1)
    return (NULL);
  for (b = c = p->input.string.current; c < end && *c >= 8; ++c)
    if (anchor && !((*c >= '0' && *c <= '9') || (*c >= 'A' && *c <= 'Z') || (*c >= 'a' && *c <= 'z') || *c == '_' || *c == '-'))
      bad = 1;
  if (c >= end || *c != 3 || (anchor && c == b))
    {
      bad = 1;
      return (NULL);
    }
  p->input.string.current = c + 1;
  return (bad ? NULL : dup (b, c - b));
}

int yaml_parser_parse (yaml_parser_t * p, yaml_event_t * e)
{
  int type = 0;
  memset (e, 0, sizeof (*e));
  if (!p->stream_start_produced)
    depth = bad = 0;
  if (p->stream_end_produced)
    return (1);
  if (p->input.string.current < p->input.string.end)
    type = *p->input.string.current++ - 'A';
  int top = depth ? open_[depth - 1].type : YAML_NO_EVENT;
  /* what may come here */
  switch (type)
    {
    case YAML_STREAM_START_EVENT: bad |= p->stream_start_produced; break;
    case YAML_DOCUMENT_START_EVENT: bad |= (top != YAML_STREAM_START_EVENT); break;
    case YAML_DOCUMENT_END_EVENT: bad |= (top != YAML_DOCUMENT_START_EVENT) || (open_[depth - 1].items != 1); break;
    case YAML_STREAM_END_EVENT: bad |= (top != YAML_STREAM_START_EVENT); break;
    case YAML_SEQUENCE_END_EVENT: bad |= (top != YAML_SEQUENCE_START_EVENT); break;
    case YAML_MAPPING_END_EVENT: bad |= (top != YAML_MAPPING_START_EVENT) || (open_[depth - 1].items & 1); break;
    case YAML_ALIAS_EVENT: case YAML_SCALAR_EVENT: case YAML_SEQUENCE_START_EVENT: case YAML_MAPPING_START_EVENT:
      if (top == YAML_DOCUMENT_START_EVENT)
	bad |= (open_[depth - 1].items != 0);
      else
	bad |= (top != YAML_SEQUENCE_START_EVENT) && (top != YAML_MAPPING_START_EVENT);
      if (depth)
	++open_[depth - 1].items;
      break;
    default: bad = 1; break;
    }
  if (!bad)
    {
      e->type = type;
      switch (type)
	{
	case YAML_STREAM_START_EVENT: p->stream_start_produced = 1; break;
	case YAML_ALIAS_EVENT: e->data.alias.anchor = ins (p, 1); bad |= !e->data.alias.anchor; break;
	case YAML_SCALAR_EVENT:
	  e->data.scalar.anchor = ins (p, 1);
	  e->data.scalar.value = ins (p, 0);
	  bad |= !e->data.scalar.value;
	  if (!bad)
	    e->data.scalar.length = strlen ((char*)e->data.scalar.value);
	  break;
	case YAML_SEQUENCE_START_EVENT: e->data.sequence_start.anchor = ins (p, 1); break;
	case YAML_MAPPING_START_EVENT: e->data.mapping_start.anchor = ins (p, 1); break;
	case YAML_STREAM_END_EVENT: p->stream_end_produced = 1; break;
	default: break;
	}
    }
  if (!bad)
    switch (type)
      {
      case YAML_STREAM_START_EVENT: case YAML_DOCUMENT_START_EVENT: case YAML_SEQUENCE_START_EVENT: case YAML_MAPPING_START_EVENT:
	bad |= (depth == sizeof (open_) / sizeof (open_[0]));
	if (!bad)
	  {
	    open_[depth].type = type;
	    open_[depth++].items = 0;
	  }
	break;
      case YAML_DOCUMENT_END_EVENT: case YAML_SEQUENCE_END_EVENT: case YAML_MAPPING_END_EVENT: case YAML_STREAM_END_EVENT: --depth; break;
      default: break;
      }
  if (bad)
    {
      yaml_event_delete (e);
      p->error = YAML_PARSER_ERROR;
      p->problem = "damaged input";
      return (0);
    }
  return (1);
}
