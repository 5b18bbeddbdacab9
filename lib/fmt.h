/* One serialization format per job: FMT is CINIT, JSON, SCM, XML1, XDR, XML2 or YAML. */
#ifndef FMT_H
#define FMT_H
#define F3_(A, B, C) A ## B ## C
#define F3(A, B, C) F3_ (A, B, C)
#define SAVE(T, P) F3 (MR_SAVE_, FMT, _RA) (T, P)
#define LOAD(T, RA, P) F3 (MR_LOAD_, FMT, _RA) (T, &(RA), P)
#endif
