/*
 * Conformance harness: executes operation scripts against the real BlipKit
 * sources through their public interface and prints one JSON record of
 * observable results per operation. One forked child per scenario.
 *
 * usage: bkh SCRIPT     (scenarios are introduced by lines "=== name")
 */
#include <stdarg.h>
#include <errno.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include "BlipKit.h"
#include "BKTone.h"
#ifndef NO_PART
#include "BKInterpolation.h"
#include "BKSequence.h"
#endif
#include "BKWaveFileReader.h"
#include "BKWaveFileWriter.h"

#pragma GCC diagnostic ignored "-Wdeprecated-declarations"

/* ---------------------------------------------------------------- memory */

void * __real_malloc (size_t);
void * __real_calloc (size_t, size_t);
void * __real_realloc (void *, size_t);
void   __real_free (void *);

/* The wrappers see every call in harness and library; `inLib` tells them apart. */
static int  inLib;
static long failAt;   /* countdown; fails the n-th library allocation */
static long libLive;  /* outstanding library allocations */
static long libCalls; /* library allocations made */
static int  injected; /* an allocation was failed during this operation */

#define MAXP 4096
static void * ptrs [MAXP];

static void ptrAdd (void * p)
{
	if (!p) return;
	for (int i = 0; i < MAXP; i ++) if (!ptrs [i]) { ptrs [i] = p; libLive ++; return; }
}

static void ptrDel (void * p)
{
	if (!p) return;
	for (int i = 0; i < MAXP; i ++) if (ptrs [i] == p) { ptrs [i] = NULL; libLive --; return; }
}

static int failNow (void)
{
	libCalls ++;
	if (failAt > 0 && -- failAt == 0) { injected = 1; return 1; }
	return 0;
}

/* no scenario needs much memory: a request for more is refused, and calls without end are stopped */
#define MAXMEM (256L << 20)
static long libBytes; /* ever allocated */
static int tooMuch (size_t n)
{
	if (n > MAXMEM) return 1;
	if ((libBytes += n) > 8 * MAXMEM) _exit (99);
	return 0;
}

void * __wrap_malloc (size_t n)
{
	void * p;
	if (!inLib) return __real_malloc (n);
	if (failNow () || tooMuch (n)) return NULL;
	p = __real_malloc (n);
	if (p && n) memset (p, 0xA5, n); /* contents of fresh memory are arbitrary */
	ptrAdd (p);
	return p;
}

void * __wrap_calloc (size_t a, size_t b)
{
	void * p;
	if (!inLib) return __real_calloc (a, b);
	if (failNow () || (b && a > MAXMEM / b) || tooMuch (a * b)) return NULL;
	p = __real_calloc (a, b);
	ptrAdd (p);
	return p;
}

void * __wrap_realloc (void * o, size_t n)
{
	void * p;
	if (!inLib) return __real_realloc (o, n);
	if (failNow () || tooMuch (n)) return NULL;
	p = __real_realloc (o, n);
	if (p) { ptrDel (o); ptrAdd (p); }
	return p;
}

void __wrap_free (void * p)
{
	ptrDel (p);
	__real_free (p);
}

/* chance is decided by the script */
static int chance;
int __wrap_rand (void) { return chance ? RAND_MAX : 0; }

#define LIB(x) do { inLib ++; x; inLib --; } while (0)

/* --------------------------------------------------------------- objects */

enum { T_CTX, T_CLK, T_DIV, T_UNIT, T_TRK, T_INS, T_DAT, T_FILE, T_WRI, T_RDR, T_PSEQ, T_PART };

typedef struct Act { int at; int n; char ** tok; } Act;

typedef struct Obj
{
	char  name [16];
	int   type;
	void * p;
	int   alloc;
	int   live;
	int   calls;    /* callback invocations */
	int   numActs;
	Act * acts;
	int   cbMode;
	BKFrame * own;  /* frames passed without copying */
	int   ownSize;
	BKFrame * ownCopy;
	int nch; /* of a context */
} Obj;

#define MAXO 256
static Obj objs [MAXO];
static int numObjs;

static Obj * find (char const * name)
{
	for (int i = numObjs - 1; i >= 0; i --)
		if (strcmp (objs [i].name, name) == 0) return & objs [i];
	return NULL;
}

static Obj * need (char const * name)
{
	Obj * o = find (name);
	if (!o) { fprintf (stderr, "harness: no object %s\n", name); exit (6); }
	return o;
}

static void * P (char const * name)
{
	if (strcmp (name, "-") == 0) return NULL;
	return need (name) -> p;
}

static Obj * newObj (char const * name, int type, size_t size, int alloc)
{
	Obj * o = find (name);
	if (!o) { if (numObjs >= MAXO) exit (7); o = & objs [numObjs ++]; }
	memset (o, 0, sizeof (* o));
	snprintf (o -> name, sizeof (o -> name), "%s", name);
	o -> type = type; o -> alloc = alloc; o -> live = 1;
	if (!alloc && size) {
		o -> p = __real_malloc (size);
		memset (o -> p, 0xC3, size); /* initialisers must not rely on prior contents */
	}
	return o;
}

/* ---------------------------------------------------------------- output */

static char  * out;
static size_t outLen, outCap;
static char  * ev;
static size_t evLen, evCap;

static void vput (char ** b, size_t * len, size_t * cap, char const * f, va_list a)
{
	va_list a2;
	int n;
	va_copy (a2, a);
	n = vsnprintf (NULL, 0, f, a2);
	va_end (a2);
	if (* len + n + 1 > * cap) {
		* cap = (* len + n + 1) * 2 + 1024;
		* b = __real_realloc (* b, * cap);
	}
	vsnprintf (* b + * len, n + 1, f, a);
	* len += n;
}

static void put (char const * f, ...) { va_list a; va_start (a, f); vput (& out, & outLen, & outCap, f, a); va_end (a); }
static void evput (char const * f, ...) { va_list a; va_start (a, f); vput (& ev, & evLen, & evCap, f, a); va_end (a); }

static int xn;
static void X (long v) { put ("%s%ld", xn ++ ? "," : "", v); }
static void XS (char const * s) { put ("%s\"%s\"", xn ++ ? "," : "", s); }

static void event (char const * f, ...)
{
	va_list a;
	if (evLen) evput (",");
	va_start (a, f);
	vput (& ev, & evLen, & evCap, f, a);
	va_end (a);
}

/* ------------------------------------------------------------- callbacks */

static long exec (int n, char ** t);
static long rc (long r);

static BKCallbackInfo * curInfo;
static long cbResult;

static void runActs (Obj * o)
{
	int call = ++ o -> calls;
	for (int i = 0; i < o -> numActs; i ++) {
		if (o -> acts [i].at == call || o -> acts [i].at == 0) {
			int sv = xn;
			size_t ol = outLen;
			long r;
			xn = 0;
			r = exec (o -> acts [i].n, o -> acts [i].tok);
			outLen = ol; if (out) out [ol] = 0; xn = sv;
			event ("[\"a\",%ld]", rc (r));
		}
	}
}

static BKContext * ctxOfClock (BKClock * k) { return k -> ctx; }

/* channels as asked for */
static int chans (BKContext * c)
{
	for (int i = 0; i < numObjs; i ++) if (objs [i].p == c && objs [i].type == T_CTX) return objs [i].nch;
	return 1;
}

/* times are read as they are represented: one number, or samples and fraction where numbers have 32 bits */
#if BK_IS_64_BIT
#define HI(v) ((long) ((v) >> 20))
#define LO(v) ((long) ((v) & 0xfffff))
#else
#define HI(v) ((long) (v).time)
#define LO(v) ((long) (v).frac)
#endif
#define XT(v) do {X (HI (v)); X (LO (v));} while (0)

static void putTime (BKContext * c)
{
	BKTime t = BK_TIME_ZERO;
	if (c) LIB (BKGetPtr (c, BK_TIME, & t, sizeof (t)));
	evput (",%ld,%ld", HI (t), LO (t));
}

static BKContext * anyCtx;

static BKEnum clockCb (BKCallbackInfo * info, void * user)
{
	Obj * o = user;
	int l = inLib;
	inLib = 0;
	event ("[\"k\",\"%s\"", o -> name);
	putTime (ctxOfClock (o -> p));
	/* the info must agree with the context's time */
	{
		BKTime t = BK_TIME_ZERO;
		BKContext * c = ctxOfClock (o -> p);
		if (c) LIB (BKGetPtr (c, BK_TIME, & t, sizeof (t)));
		evput (",%d]", info -> object == o -> p && info -> event == BK_EVENT_CLOCK && HI (info -> nextTime) == HI (t) && LO (info -> nextTime) == LO (t));
	}
	{
		BKCallbackInfo * saved = curInfo;
		curInfo = info;
		runActs (o);
		curInfo = saved;
	}
	inLib = l;
	return 0;
}

static BKEnum divCb (BKCallbackInfo * info, void * user)
{
	Obj * o = user;
	int l = inLib;
	inLib = 0;
	event ("[\"d\",\"%s\"", o -> name);
	putTime (anyCtx);
	evput (",%ld,%d]", (long) info -> divider, info -> event == BK_EVENT_DIVIDER);
	{
		BKCallbackInfo * saved = curInfo;
		curInfo = info;
		runActs (o);
		curInfo = saved;
	}
	inLib = l;
	return 0;
}

static BKEnum sampleCb (BKCallbackInfo * info, void * user)
{
	Obj * o = user;
	int l = inLib;
	inLib = 0;
	event ("[\"s\",\"%s\",%d,%d]", o -> name, (int) (info -> event - BK_EVENT_TYPE), info -> object == o -> p);
	{
		long saved = cbResult, res;
		cbResult = o -> cbMode;
		runActs (o);
		res = cbResult;
		cbResult = saved;
		inLib = l;
		return res;
	}
}

static BKInt writeFail;
static BKUInt writeCh;

static BKInt writeCb (BKFrame frames [], BKUInt size, void * info)
{
	int l = inLib;
	inLib = 0;
	event ("[\"w\",%ld]", (long) size);
	for (BKUInt i = 0; i < size * writeCh; i ++) X (frames [i]);
	inLib = l;
	if (writeFail > 0 && -- writeFail == 0) return 1;
	return 0;
}

/* ------------------------------------------------------------ attributes */

#define A(n) {#n, n}
static struct { char const * n; BKInt v; } const names [] =
{
	A(BK_NUM_CHANNELS), A(BK_SAMPLE_RATE), A(BK_TIME), A(BK_PULSE_KERNEL),
	A(BK_WAVEFORM), A(BK_DUTY_CYCLE), A(BK_PERIOD), A(BK_PHASE), A(BK_PHASE_WRAP), A(BK_NUM_PHASES),
	A(BK_MASTER_VOLUME), A(BK_VOLUME), A(BK_VOLUME_0), A(BK_VOLUME_1), A(BK_VOLUME_2), A(BK_VOLUME_3),
	A(BK_VOLUME_4), A(BK_VOLUME_5), A(BK_VOLUME_6), A(BK_VOLUME_7), A(BK_MUTE), A(BK_PITCH),
	A(BK_SAMPLE_RANGE), A(BK_SAMPLE_REPEAT), A(BK_SAMPLE_SUSTAIN_RANGE), A(BK_SAMPLE_IMMED_RELEASE),
	A(BK_SAMPLE_PERIOD), A(BK_SAMPLE_PITCH), A(BK_SAMPLE_CALLBACK), A(BK_FLAG_RELEASE), A(BK_NOTE),
	A(BK_ARPEGGIO), A(BK_PANNING), A(BK_INSTRUMENT), A(BK_CLOCK_PERIOD), A(BK_ARPEGGIO_DIVIDER),
	A(BK_EFFECT_DIVIDER), A(BK_INSTRUMENT_DIVIDER), A(BK_TRIANGLE_IGNORES_VOLUME), A(BK_NUM_FRAMES),
	A(BK_SQUARE), A(BK_TRIANGLE), A(BK_NOISE), A(BK_SAWTOOTH), A(BK_SINE), A(BK_CUSTOM), A(BK_SAMPLE),
	A(BK_EFFECT_VOLUME_SLIDE), A(BK_EFFECT_PANNING_SLIDE), A(BK_EFFECT_PORTAMENTO), A(BK_EFFECT_TREMOLO),
	A(BK_EFFECT_VIBRATO), A(BK_NO_REPEAT), A(BK_REPEAT), A(BK_PALINDROME),
	A(BK_ALLOCATION_ERROR), A(BK_OTHER_ERROR),
	{NULL, 0},
};

static long num (char const * s)
{
	char * e;
	long v = strtol (s, & e, 0);
	if (* e == 0 && * s) return v;
	for (int i = 0; names [i].n; i ++)
		if (strcmp (names [i].n + 3, s) == 0) return names [i].v;
	fprintf (stderr, "harness: bad number %s\n", s);
	exit (7);
}

/* waveform values are reported by small codes, independent of the enum layout */
static long wfCode (long v)
{
	switch (v) {
		case 0: return 0;
		case BK_SQUARE: return 1; case BK_TRIANGLE: return 2; case BK_NOISE: return 3;
		case BK_SAWTOOTH: return 4; case BK_SINE: return 5; case BK_CUSTOM: return 6; case BK_SAMPLE: return 7;
	}
	return -1;
}

/* Return codes are reported by small codes */
static long rc (long r)
{
	if (r >= 0) return r;
	switch ((BKInt) r) {
		case BK_ALLOCATION_ERROR: return -101;
		case BK_INVALID_ATTRIBUTE: return -102;
		case BK_INVALID_VALUE: return -103;
		case BK_INVALID_STATE: return -104;
		case BK_INVALID_NUM_CHANNELS: return -105;
		case BK_INVALID_NUM_FRAMES: return -106;
		case BK_INVALID_NUM_BITS: return -107;
		case BK_INVALID_RETURN_VALUE: return -108;
		case BK_FILE_ERROR: return -109;
		case BK_FILE_NOT_READABLE_ERROR: return -110;
		case BK_FILE_NOT_WRITABLE_ERROR: return -111;
		case BK_FILE_NOT_SEEKABLE_ERROR: return -112;
		case BK_OTHER_ERROR: return -113;
	}
	return r;
}

static BKBufferPulse tapKernel, slopeKernel;

static void initKernels (void)
{
	memset (& tapKernel, 0, sizeof (tapKernel));
	memset (& slopeKernel, 0, sizeof (slopeKernel));
	for (int p = 0; p < 32; p ++) {
		tapKernel.frames [p][0] = 16384;
		/* the split between the taps tells the sub-sample position of a step */
		slopeKernel.frames [p][0] = 16384 - 256 * p;
		slopeKernel.frames [p][1] = 256 * p;
	}
}

static BKTime T (char const * s, char const * f)
{
	return BKTimeMake (num (s), num (f));
}

static void parseActs (Obj * o, int n, char ** t)
{
	for (int i = 0; i < n;) {
		Act a;
		int j = i + 1;
		if (t [i][0] != '@') { fprintf (stderr, "harness: bad action %s\n", t [i]); exit (7); }
		a.at = atoi (t [i] + 1);
		while (j < n && t [j][0] != '@') j ++;
		a.n = j - i - 1;
		a.tok = __real_malloc (sizeof (char *) * (a.n + 1));
		for (int k = 0; k < a.n; k ++) a.tok [k] = t [i + 1 + k];
		o -> acts = __real_realloc (o -> acts, sizeof (Act) * (o -> numActs + 1));
		o -> acts [o -> numActs ++] = a;
		i = j;
	}
}

/* pointer attributes through the generic functions or, with mode 's', those of the class, 'x' those for effects only */
static BKInt setP (Obj * o, char mode, BKInt a, void * p, size_t size)
{
	BKInt r = 0;
	if (mode == 's') switch (o -> type) {
		case T_CTX: LIB (r = BKContextSetPtr (o -> p, a, p)); break;
		case T_UNIT: LIB (r = BKUnitSetPtr (o -> p, a, p)); break;
		case T_TRK: LIB (r = BKTrackSetPtr (o -> p, a, p)); break;
		default: LIB (r = BKSetPtr (o -> p, a, p, size));
	}
	else if (mode == 'x') LIB (r = BKTrackSetEffect (o -> p, a, p, size));
	else LIB (r = BKSetPtr (o -> p, a, p, size));
	return r;
}

static BKInt getP (Obj * o, char mode, BKInt a, void * p, size_t size)
{
	BKInt r = 0;
	if (mode == 's') switch (o -> type) {
		case T_CTX: LIB (r = BKContextGetPtr (o -> p, a, p)); break;
		case T_UNIT: LIB (r = BKUnitGetPtr (o -> p, a, p)); break;
		case T_TRK: LIB (r = BKTrackGetPtr (o -> p, a, p)); break;
		default: LIB (r = BKGetPtr (o -> p, a, p, size));
	}
	else if (mode == 'x') LIB (r = BKTrackGetEffect (o -> p, a, p, size));
	else LIB (r = BKGetPtr (o -> p, a, p, size));
	return r;
}

static long getA (void * p, BKInt attr)
{
	BKInt v = -77777777;
	BKInt r;
	LIB (r = BKGetAttr (p, attr, & v));
	if (r != 0) return -77777777;
	if (attr == BK_WAVEFORM) v = wfCode (v);
	return v;
}

static BKBufferPulse const * kernelOf (char const * name)
{
	if (strcmp (name, "tap") == 0) return & tapKernel;
	if (strcmp (name, "slope") == 0) return & slopeKernel;
	if (strcmp (name, "sinc") == 0) return BKBufferPulseKernels [BK_PULSE_KERNEL_SINC];
	if (strcmp (name, "harm") == 0) return BKBufferPulseKernels [BK_PULSE_KERNEL_HARM];
	return NULL;
}

#define IS(s) (strcmp (op, s) == 0)

static int badGuard;

static long exec (int n, char ** t)
{
	char const * op = t [0];
	long r = 0;
	Obj * o;

	/* contexts */
	if (IS ("ctx.new")) {
		int al = num (t [4]);
		o = newObj (t [1], T_CTX, sizeof (BKContext), al);
		o -> nch = num (t [2]) < 1 ? 1 : num (t [2]) > 8 ? 8 : num (t [2]);
		if (al) { BKContext * c = NULL; LIB (r = BKContextAlloc (& c, num (t [2]), num (t [3]))); o -> p = c; if (r < 0) o -> live = 0; }
		else { LIB (r = BKContextInit (o -> p, num (t [2]), num (t [3]))); if (r < 0) o -> live = 0; }
		anyCtx = o -> p;
	}
	else if (IS ("ctx.use")) { anyCtx = P (t [1]); }
	else if (IS ("ctx.rst")) LIB (BKContextReset (P (t [1])));
	else if (IS ("ctx.per")) { BKTime v = T (t [2], t [3]); LIB (r = BKSetPtr (P (t [1]), BK_CLOCK_PERIOD, & v, sizeof (v))); }
	else if (IS ("ctx.per?")) { BKTime v = BK_TIME_ZERO; LIB (r = BKGetPtr (P (t [1]), BK_CLOCK_PERIOD, & v, sizeof (v))); XT (v); }
	else if (IS ("ctx.time")) { BKTime v = BK_TIME_ZERO; LIB (r = BKGetPtr (P (t [1]), BK_TIME, & v, sizeof (v))); XT (v); }
	else if (IS ("ctx.ker")) {
		BKBufferPulse const * k = kernelOf (t [2]);
		LIB (r = BKSetPtr (P (t [1]), BK_PULSE_KERNEL, (void *) k, sizeof (k)));
	}
	else if (IS ("ctx.ker?")) {
		BKBufferPulse const * k = NULL;
		LIB (r = BKGetPtr (P (t [1]), BK_PULSE_KERNEL, & k, sizeof (k)));
		X (k == & tapKernel ? 1 : k == & slopeKernel ? 2 : k == kernelOf ("sinc") ? 3 : k == kernelOf ("harm") ? 4 : 0);
	}
	else if (IS ("gen") || IS ("read")) {
		BKContext * c = P (t [1]);
		long sz = num (t [2]);
		long tot = sz * chans (c);
		BKFrame * f = __real_malloc (tot * sizeof (BKFrame) + 1);
		for (long i = 0; i < tot; i ++) f [i] = 0x5AA5;
		if (IS ("gen")) LIB (r = BKContextGenerate (c, f, sz));
		else LIB (r = BKContextRead (c, f, sz));
		if (r > 0) for (long i = 0; i < r * (long) chans (c); i ++) X (f [i]);
		for (long i = (r > 0 ? r * (long) chans (c) : 0); i < tot; i ++)
			if (f [i] != 0x5AA5) badGuard = 1;
		__real_free (f);
	}
	else if (IS ("crun")) {
		BKFUInt20 e = BKTimeGetFUInt20 (T (t [2], t [3]));
		LIB (r = BKContextRun (P (t [1]), e));
		if (r == (BKInt) e) r = 0;
	}
	else if (IS ("run")) {
		BKFUInt20 e = BKTimeGetFUInt20 (T (t [2], t [3]));
		LIB (r = BKContextEnd (P (t [1]), e));
		if (r == (BKInt) e) r = 0;
	}
	else if (IS ("size")) LIB (r = BKContextSize (P (t [1])));
	else if (IS ("gtt")) {
		BKContext * c = P (t [1]);
		writeFail = num (t [4]); writeCh = chans (c);
		LIB (r = BKContextGenerateToTime (c, T (t [2], t [3]), writeCb, NULL));
	}
	else if (IS ("ctx.get")) {
		BKInt v = 0;
		LIB (r = BKGetAttr (P (t [1]), num (t [2]), & v));
		X (r == 0 ? v : 0);
	}
	/* clocks */
	else if (IS ("clk.new")) { /* name s f cb alloc acts */
		int al = num (t [5]);
		BKCallback cb;
		o = newObj (t [1], T_CLK, sizeof (BKClock), al);
		cb.func = clockCb; cb.userInfo = o;
		if (al) { BKClock * k = NULL; LIB (r = BKClockAlloc (& k, T (t [2], t [3]), num (t [4]) ? & cb : NULL)); o -> p = k; }
		else LIB (r = BKClockInit (o -> p, T (t [2], t [3]), num (t [4]) ? & cb : NULL));
		if (r < 0) o -> live = 0;
		parseActs (o, n - 6, t + 6);
	}
	else if (IS ("clk.att")) {
		BKClock * b = NULL;
		if (strcmp (t [3], "first") == 0) b = BK_FIRST_ELEMENT_PTR;
		else if (strcmp (t [3], "last") != 0) b = P (t [3]);
		LIB (r = BKClockAttach (P (t [1]), P (t [2]), b));
	}
	else if (IS ("clk.det")) LIB (BKClockDetach (P (t [1])));
	else if (IS ("clk.per")) LIB (BKClockSetPeriod (P (t [1]), T (t [2], t [3])));
	else if (IS ("clk.rst")) LIB (BKClockReset (P (t [1])));
	/* only inside callbacks */
	else if (IS ("setnext")) curInfo -> nextTime = BKTimeAdd (curInfo -> nextTime, T (t [1], t [2]));
	else if (IS ("setdiv")) curInfo -> divider = num (t [1]);
	else if (IS ("setres")) cbResult = num (t [1]);
	/* dividers */
	else if (IS ("div.new")) { /* name n cb alloc acts */
		int al = num (t [4]);
		BKCallback cb;
		o = newObj (t [1], T_DIV, sizeof (BKDivider), al);
		cb.func = divCb; cb.userInfo = o;
		if (al) { BKDivider * d = NULL; LIB (r = BKDividerAlloc (& d, num (t [2]), num (t [3]) ? & cb : NULL)); o -> p = d; }
		else LIB (r = BKDividerInit (o -> p, num (t [2]), num (t [3]) ? & cb : NULL));
		if (r < 0) o -> live = 0;
		parseActs (o, n - 5, t + 5);
	}
	else if (IS ("div.attk")) LIB (r = BKDividerAttachToClock (P (t [1]), P (t [2])));
	else if (IS ("div.attc")) {
		BKEnum type = strcmp (t [3], "eff") == 0 ? BK_CLOCK_TYPE_EFFECT : strcmp (t [3], "beat") == 0 ? BK_CLOCK_TYPE_BEAT : 99;
		LIB (r = BKContextAttachDivider (P (t [2]), P (t [1]), type));
	}
	else if (IS ("div.det")) LIB (BKDividerDetach (P (t [1])));
	else if (IS ("div.rst")) LIB (BKDividerReset (P (t [1])));
	/* units and tracks */
	else if (IS ("unit.new")) {
		o = newObj (t [1], T_UNIT, sizeof (BKUnit), 0);
		LIB (r = BKUnitInit (o -> p, num (t [2])));
	}
	else if (IS ("unit.att")) LIB (r = BKUnitAttach (P (t [1]), P (t [2])));
	else if (IS ("unit.det")) LIB (BKUnitDetach (P (t [1])));
	else if (IS ("trk.new")) {
		int al = num (t [3]);
		o = newObj (t [1], T_TRK, sizeof (BKTrack), al);
		if (al) { BKTrack * k = NULL; LIB (r = BKTrackAlloc (& k, num (t [2]))); o -> p = k; }
		else LIB (r = BKTrackInit (o -> p, num (t [2])));
		if (r < 0) o -> live = 0;
	}
	else if (IS ("trk.att")) LIB (r = BKTrackAttach (P (t [1]), P (t [2])));
	else if (IS ("trk.det")) LIB (BKTrackDetach (P (t [1])));
	else if (IS ("trk.rst")) LIB (BKTrackReset (P (t [1])));
	else if (IS ("trk.clr")) LIB (BKTrackClear (P (t [1])));
	/* generic attributes */
	else if (IS ("set")) LIB (r = BKSetAttr (P (t [1]), num (t [2]), num (t [3])));
	else if (IS ("get")) {
		BKInt v = 0, a = num (t [2]);
		LIB (r = BKGetAttr (P (t [1]), a, & v));
		if (r == 0) X (a == BK_WAVEFORM ? wfCode (v) : v);
	}
	/* deprecated specific functions must agree with the generic ones */
	else if (IS ("sset") || IS ("sget")) {
		BKInt v = 0, a = num (t [2]);
		o = need (t [1]);
		if (IS ("sset")) {
			v = num (t [3]);
			switch (o -> type) {
				case T_CTX: LIB (r = BKContextSetAttr (o -> p, a, v)); break;
				case T_UNIT: LIB (r = BKUnitSetAttr (o -> p, a, v)); break;
				case T_TRK: LIB (r = BKTrackSetAttr (o -> p, a, v)); break;
				case T_DAT: LIB (r = BKDataSetAttr (o -> p, a, v)); break;
			}
		}
		else {
			switch (o -> type) {
				case T_CTX: LIB (r = BKContextGetAttr (o -> p, a, & v)); break;
				case T_UNIT: LIB (r = BKUnitGetAttr (o -> p, a, & v)); break;
				case T_TRK: LIB (r = BKTrackGetAttr (o -> p, a, & v)); break;
				case T_DAT: LIB (r = BKDataGetAttr (o -> p, a, & v)); break;
			}
			if (r == 0) X (a == BK_WAVEFORM ? wfCode (v) : v);
		}
	}
	else if (IS ("obs")) { /* everything observable of a unit or track */
		void * p = P (t [1]);
		o = need (t [1]);
		X (getA (p, BK_WAVEFORM)); X (getA (p, BK_DUTY_CYCLE)); X (getA (p, BK_PERIOD));
		X (getA (p, BK_PHASE)); X (getA (p, BK_PHASE_WRAP)); X (getA (p, BK_MUTE));
		for (int i = 0; i < 8; i ++) X (getA (p, BK_VOLUME_0 + i));
		X (getA (p, BK_SAMPLE_PERIOD)); X (getA (p, BK_SAMPLE_REPEAT)); X (getA (p, BK_FLAG_RELEASE));
		X (getA (p, BK_SAMPLE_IMMED_RELEASE)); X (getA (p, BK_NUM_PHASES));
		if (o -> type == T_TRK) {
			X (getA (p, BK_MASTER_VOLUME)); X (getA (p, BK_VOLUME)); X (getA (p, BK_PANNING));
			X (getA (p, BK_NOTE)); X (getA (p, BK_SAMPLE_PITCH)); X (getA (p, BK_ARPEGGIO_DIVIDER));
			X (getA (p, BK_EFFECT_DIVIDER)); X (getA (p, BK_INSTRUMENT_DIVIDER));
			X (getA (p, BK_TRIANGLE_IGNORES_VOLUME));
			X (getA (p, BK_EFFECT_VOLUME_SLIDE)); X (getA (p, BK_EFFECT_PANNING_SLIDE)); X (getA (p, BK_EFFECT_PORTAMENTO));
		}
	}
	else if (IS ("tob")) { /* what a track sounds like right now */
		void * p = P (t [1]);
		X (getA (p, BK_MUTE)); X (getA (p, BK_VOLUME_0)); X (getA (p, BK_VOLUME_1)); X (getA (p, BK_PERIOD));
		X (getA (p, BK_DUTY_CYCLE)); X (getA (p, BK_SAMPLE_PERIOD)); X (getA (p, BK_NOTE));
	}
	else if (IS ("eff") || IS ("seff") || IS ("xeff")) { /* track effect count values */
		BKInt v [8] = {0}; int m = num (t [3]);
		for (int i = 0; i < m && i < 8; i ++) v [i] = num (t [4 + i]);
		r = setP (need (t [1]), op [0], num (t [2]), m ? v : NULL, m * sizeof (BKInt));
	}
	else if (IS ("eff?") || IS ("seff?") || IS ("xeff?")) {
		BKInt v [5]; int m = num (t [3]);
		for (int i = 0; i < 5; i ++) v [i] = 0x55555555;
		r = getP (need (t [1]), op [0], num (t [2]), v, m * sizeof (BKInt));
		if (r == 0) for (int i = 0; i < m; i ++) X (v [i]);
		if (v [m] != 0x55555555) badGuard = 1;
	}
	else if (IS ("arp") || IS ("sarp")) { /* track count notes */
		int m = num (t [2]);
		if (m == -1) r = setP (need (t [1]), op [0], BK_ARPEGGIO, NULL, 0);
		else {
			int l = n - 3 < m ? m : n - 3;   /* a negative number of notes may come with notes */
			BKInt * v = __real_malloc ((l + 1) * sizeof (BKInt));
			v [0] = m;
			for (int i = 0; i < n - 3; i ++) v [1 + i] = num (t [3 + i]);
			r = setP (need (t [1]), op [0], BK_ARPEGGIO, v, (l + 1) * sizeof (BKInt));
			__real_free (v);
		}
	}
	else if (IS ("arp?") || IS ("sarp?")) {
		BKInt v [BK_MAX_ARPEGGIO + 2];
		for (int i = 0; i < BK_MAX_ARPEGGIO + 2; i ++) v [i] = 0x55555555;
		r = getP (need (t [1]), op [0], BK_ARPEGGIO, v, sizeof (BKInt) * (BK_MAX_ARPEGGIO + 1));
		for (int i = 0; i <= v [0] && i <= BK_MAX_ARPEGGIO; i ++) X (v [i]);
		if (v [BK_MAX_ARPEGGIO + 1] != 0x55555555) badGuard = 1;
	}
	else if (IS ("ref") || IS ("sref")) { /* object attr other */
		r = setP (need (t [1]), op [0], num (t [2]), P (t [3]), sizeof (void *));
	}
	else if (IS ("ref?") || IS ("sref?")) {
		static char unset;
		void * v = & unset;
		char const * nm = "?";
		r = getP (need (t [1]), op [0], num (t [2]), & v, sizeof (void *));
		if (r < 0 || !v) nm = "-";
		else for (int i = 0; i < numObjs; i ++) if (objs [i].p == v && objs [i].live) nm = objs [i].name;
		XS (nm);
	}
	else if (IS ("rng") || IS ("rng0") || IS ("srng") || IS ("srng0")) { /* object attr a b  |  object attr */
		BKInt v [2];
		int nul = strchr (op, '0') != NULL;
		if (!nul) { v [0] = num (t [3]); v [1] = num (t [4]); }
		r = setP (need (t [1]), op [0], num (t [2]), nul ? NULL : v, sizeof (v));
	}
	else if (IS ("rng?") || IS ("srng?")) {
		BKInt v [2] = {0, 0};
		r = getP (need (t [1]), op [0], num (t [2]), v, sizeof (v));
		if (r == 0) { X (v [0]); X (v [1]); }
	}
	else if (IS ("scb")) { /* unit mode acts: sample callback; mode < 0 unsets */
		BKCallback cb;
		int m = num (t [2]);
		o = need (t [1]);
		o -> numActs = 0; o -> calls = 0; o -> cbMode = m;
		cb.func = sampleCb; cb.userInfo = o;
		parseActs (o, n - 3, t + 3);
		LIB (r = BKSetPtr (o -> p, BK_SAMPLE_CALLBACK, m < 0 ? NULL : & cb, sizeof (void *)));
	}
	else if (IS ("scb?")) { /* unit: 1 = its callback is set, 0 = none */
		BKCallback * cb = NULL;
		o = need (t [1]);
		LIB (r = BKGetPtr (o -> p, BK_SAMPLE_CALLBACK, & cb, sizeof (void *)));
		X (! cb ? -1 : cb -> func == sampleCb && cb -> userInfo == o ? 1 : ! cb -> func ? 0 : 2);
	}
	/* instruments */
	else if (IS ("ins.new")) {
		int al = num (t [2]);
		o = newObj (t [1], T_INS, sizeof (BKInstrument), al);
		if (al) { BKInstrument * k = NULL; LIB (r = BKInstrumentAlloc (& k)); o -> p = k; }
		else LIB (r = BKInstrumentInit (o -> p));
		if (r < 0) o -> live = 0;
	}
	else if (IS ("ins.det")) LIB (BKInstrumentDetach (P (t [1])));
	else if (IS ("ins.seq")) { /* ins slot so sl n values */
		int m = num (t [5]);
		BKInt * v = __real_malloc (m * sizeof (BKInt) + 1);
		for (int i = 0; i < m; i ++) v [i] = num (t [6 + i]);
		LIB (r = BKInstrumentSetSequence (P (t [1]), num (t [2]), m || num (t [3]) > 0 ? v : NULL, m, num (t [3]), num (t [4])));
		memset (v, 0x66, m * sizeof (BKInt));
		__real_free (v);
	}
	else if (IS ("ins.env")) { /* ins slot so sl n (steps value)* */
		int m = num (t [5]);
		BKSequencePhase * v = __real_malloc (m * sizeof (BKSequencePhase) + 1);
		for (int i = 0; i < m; i ++) { v [i].steps = num (t [6 + 2 * i]); v [i].value = num (t [7 + 2 * i]); }
		LIB (r = BKInstrumentSetEnvelope (P (t [1]), num (t [2]), m || num (t [3]) > 0 ? v : NULL, m, num (t [3]), num (t [4])));
		memset (v, 0x66, m * sizeof (BKSequencePhase));
		__real_free (v);
	}
	else if (IS ("ins.adsr")) LIB (r = BKInstrumentSetEnvelopeADSR (P (t [1]), num (t [2]), num (t [3]), num (t [4]), num (t [5])));
	else if (IS ("ins.copy")) {
		o = newObj (t [1], T_INS, sizeof (BKInstrument), 0);
		LIB (r = BKInstrumentInitCopy (o -> p, P (t [2])));
		if (r < 0) o -> live = 0;
	}
	else if (IS ("ins.has")) {
		void const * q;
		LIB (q = BKInstrumentGetSequence (P (t [1]), num (t [2])));
		r = q != NULL;
	}
	/* data */
	else if (IS ("dat.new")) {
		int al = num (t [2]);
		o = newObj (t [1], T_DAT, sizeof (BKData), al);
		if (al) { BKData * k = NULL; LIB (r = BKDataAlloc (& k)); o -> p = k; }
		else LIB (r = BKDataInit (o -> p));
		if (r < 0) o -> live = 0;
	}
	else if (IS ("dat.frm") || IS ("dat.pat")) { /* data copy nch n values (n per channel), or data copy nch n step start: a long pattern */
		int pat = IS ("dat.pat");
		int cp = num (t [2]), nch = num (t [3]), m = num (t [4]), tot = pat ? nch * m : n - 5;
		BKFrame * f = __real_malloc (tot * sizeof (BKFrame) + 1);
		for (int i = 0; i < tot; i ++) f [i] = pat ? (num (t [6]) + (long long) i * num (t [5])) % 60001 - 30000 : num (t [5 + i]);
		o = need (t [1]);
		LIB (r = BKDataSetFrames (o -> p, f, m, nch, cp));
		if (cp || r < 0) {
			memset (f, 0x33, tot * sizeof (BKFrame)); /* the copy must not follow */
			__real_free (f);
		}
		else {
			/* the caller's memory must stay untouched and must not be released by the library */
			o -> own = f; o -> ownSize = tot;
			o -> ownCopy = __real_malloc (tot * sizeof (BKFrame) + 1);
			memcpy (o -> ownCopy, f, tot * sizeof (BKFrame));
		}
	}
	else if (IS ("dat.own")) { /* is the caller's memory still as passed? */
		o = need (t [1]);
		r = o -> own ? memcmp (o -> own, o -> ownCopy, o -> ownSize * sizeof (BKFrame)) == 0 : 1;
	}
	else if (IS ("dat.rel")) { /* the caller releases the memory it passed without copying */
		o = need (t [1]);
		__real_free (o -> own); o -> own = NULL;
	}
	else if (IS ("dat.raw") || IS ("dat.ldr")) { /* data nch params bytes */
		int m = n - 4;
		unsigned char * f = __real_malloc (m + 1);
		unsigned char * g = __real_malloc (m ? m : 1); /* exact size for the address checker */
		for (int i = 0; i < m; i ++) f [i] = g [i] = num (t [4 + i]);
		if (IS ("dat.raw")) LIB (r = BKDataSetData (P (t [1]), g, m, num (t [2]), num (t [3])));
		else {
			FILE * fp = tmpfile ();
			fwrite ("JUNK", 1, m % 3 * 4 / 2, fp); /* the data begins where the file stands */
			fwrite (g, 1, m, fp);
			fflush (fp);
			fseek (fp, m % 3 * 4 / 2, SEEK_SET);
			LIB (r = BKDataLoadRaw (P (t [1]), fp, num (t [2]), num (t [3])));
			fclose (fp);
		}
		__real_free (f); __real_free (g);
	}
	else if (IS ("dat.nrm")) LIB (r = BKDataNormalize (P (t [1])));
	else if (IS ("dat.cnv")) {
		BKDataConvertInfo info;
		memset (& info, 0, sizeof (info));
		info.targetNumBits = num (t [2]);
		if (n > 3) info.threshold = num (t [3]) / 64.0f;
		if (n > 6) { /* smooth length, slope in halves (0: default), outcome of chance */
			info.ditherSmoothLength = num (t [4]);
			info.ditherSlope = num (t [5]) / 2.0f;
			chance = num (t [6]);
		}
		LIB (r = BKDataConvert (P (t [1]), & info));
	}
	else if (IS ("dat.det")) LIB (BKDataDetach (P (t [1])));
	else if (IS ("dat.copy")) {
		o = newObj (t [1], T_DAT, sizeof (BKData), 0);
		LIB (r = BKDataInitCopy (o -> p, P (t [2])));
		if (r < 0) o -> live = 0;
	}
	else if (IS ("dat?")) { /* content */
		BKData * d = P (t [1]);
		X (getA (d, BK_NUM_FRAMES)); X (getA (d, BK_NUM_CHANNELS)); X (getA (d, BK_SAMPLE_PITCH));
		for (BKUInt i = 0; i < d -> numFrames * d -> numChannels; i ++) X (d -> frames [i]);
	}
	/* disposal */
	else if (IS ("disp")) {
		o = need (t [1]);
		if (o -> p == anyCtx) anyCtx = NULL;
		if (o -> type == T_FILE) { fclose (o -> p); close (o -> cbMode); }
#ifndef NO_PART
		else if (o -> type == T_PSEQ) LIB (BKSequenceDispose (o -> p));
		else if (o -> type == T_PART) { if (o -> cbMode) LIB (BKBufferDispose (o -> p)); }
#endif
		else LIB (BKDispose (o -> p));
		o -> live = 0;
		if (o -> type == T_PART) __real_free (o -> p);
		else if (!o -> alloc) {
			/* a second disposal must be harmless */
			LIB (BKDispose (o -> p));
			__real_free (o -> p);
		}
		if (o -> own) { __real_free (o -> own); o -> own = NULL; }
		o -> p = NULL;
		o -> name [0] = '!';
	}
	else if (IS ("drop")) { /* forget an object whose creation failed */
		o = need (t [1]);
		if (!o -> alloc && o -> p) {
			/* disposing an object after a failed init must be harmless */
			if (n > 2) LIB (BKDispose (o -> p));
			__real_free (o -> p);
		}
		o -> p = NULL; o -> name [0] = '!';
	}
	else if (IS ("bal")) r = libLive;
	else if (IS ("fail")) failAt = num (t [1]);
	else if (IS ("nalloc")) { r = libCalls; libCalls = 0; }
	/* tables and names */
	else if (IS ("tone")) { LIB (r = (BKInt) BKTonePeriodLookup (num (t [1]), num (t [2]))); X (r); r = 0; }
	else if (IS ("log2")) { LIB (r = (BKInt) BKLog2PeriodLookup (num (t [1]))); X (r); r = 0; }
	else if (IS ("tmk")) { BKTime v = BKTimeMake (num (t [1]), num (t [2])); XT (v); X (BKTimeGetTime (v)); X (BKTimeGetFrac (v)); X (BKTimeGetFUInt20 (v) >> 20); X (BKTimeGetFUInt20 (v) & 0xfffff); }
	else if (IS ("tsec")) { BKTime v; double s = num (t [2]) / (double) num (t [3]); LIB (v = BKTimeFromSeconds (P (t [1]), s)); XT (v); }
	else if (IS ("tcmp")) {
		BKTime a = T (t [1], t [2]), b = T (t [3], t [4]);
		BKTime s = BKTimeAdd (a, b), d = BKTimeSub (a, b);
		X (BKTimeIsLess (a, b)); X (BKTimeIsLessEqual (a, b)); X (BKTimeIsEqual (a, b)); X (BKTimeIsGreater (a, b)); X (BKTimeIsGreaterEqual (a, b));
		XT (s); XT (d);
		/* the second one as a number of 32 bits */
		BKFUInt20 w = BKTimeGetFUInt20 (b);
		s = BKTimeAddFUInt20 (a, w); d = BKTimeSubFUInt20 (a, w);
		X (w >> 20); X (w & 0xfffff); XT (s); XT (d); X (BKTimeIsLessFUInt20 (a, w)); X (BKTimeIsGreaterFUInt20 (a, w));
	}
	else if (IS ("name")) {
		char const * s;
		LIB (s = BKStatusGetName ((BKEnum) (num (t [1]) + (n > 2 ? num (t [2]) : 0))));
		if (s) XS (s); else XS ("(null)");
	}
	else if (IS ("name.all")) { /* codes in enum order */
		BKInt c [] = {BK_ALLOCATION_ERROR, BK_INVALID_ATTRIBUTE, BK_INVALID_VALUE, BK_INVALID_STATE, BK_INVALID_NUM_CHANNELS,
			BK_INVALID_NUM_FRAMES, BK_INVALID_NUM_BITS, BK_INVALID_RETURN_VALUE, BK_FILE_ERROR, BK_FILE_NOT_READABLE_ERROR,
			BK_FILE_NOT_WRITABLE_ERROR, BK_FILE_NOT_SEEKABLE_ERROR, BK_OTHER_ERROR};
		for (int i = 0; i < 13; i ++) { char const * s; LIB (s = BKStatusGetName ((BKEnum) c [i])); XS (s ? s : "(null)"); }
	}
	else if (IS ("nul")) { /* generic calls on no object */
		BKInt v = 0;
		LIB (X (rc (BKSetAttr (NULL, BK_VOLUME, 1)))); LIB (X (rc (BKGetAttr (NULL, BK_VOLUME, & v))));
		LIB (X (rc (BKSetPtr (NULL, BK_SAMPLE, NULL, 0)))); LIB (X (rc (BKGetPtr (NULL, BK_SAMPLE, & v, 0))));
		LIB (BKDispose (NULL));
	}
	else if (IS ("obj.init")) { /* object initialisation with a wrong size: name of class donor, delta */
		BKObject * donor = P (t [1]);
		BKSize size = donor -> isa -> instanceSize;
		void * mem = __real_malloc (size + 64);
		LIB (X (rc (BKObjectInit (mem, donor -> isa, size + num (t [2])))));
		LIB (X (rc (BKObjectInit (NULL, donor -> isa, size))));
		LIB (X (rc (BKObjectInit (mem, NULL, size))));
		LIB (X (rc (BKObjectAlloc (NULL, donor -> isa, 0))));
		__real_free (mem);
	}
#include "bkh_wave.inc"
#ifndef NO_PART
#include "bkh_part.inc"
#endif
	else {
		fprintf (stderr, "harness: unknown op %s\n", op);
		exit (7);
	}

	return r;
}

/* ------------------------------------------------------------------ main */

static void runScenario (char ** lines, int n, int fd)
{
	for (int i = 0; i < n; i ++) {
		static char * tok [1 << 18];
		int k = 0;
		char * s = strdup (lines [i]);
		long r;

		for (char * p = strtok (s, " \t\r\n"); p && k < 1 << 18; p = strtok (NULL, " \t\r\n")) tok [k ++] = p;
		if (!k) continue;

		outLen = 0; evLen = 0; xn = 0; badGuard = 0; injected = 0;
		if (!out) { put ("%s", ""); }
		if (!ev) { evput ("%s", ""); }
		out [0] = 0; ev [0] = 0;
		r = exec (k, tok);
		{
			char * line = NULL;
			int m = asprintf (& line, "{\"r\":%ld,\"x\":[%s],\"ev\":[%s]%s%s}\n", rc (r), outLen ? out : "", evLen ? ev : "", badGuard ? ",\"g\":1" : "", injected ? ",\"inj\":1" : "");
			for (int w = 0; w < m;) { int q = write (fd, line + w, m - w); if (q <= 0) _exit (8); w += q; }
			__real_free (line);
		}
	}
}

int main (int argc, char ** argv)
{
	FILE * f = fopen (argv [1], "r");
	char ** lines = NULL;
	int numLines = 0, cap = 0;
	char * line = NULL;
	size_t lc = 0;
	int timeout = argc > 2 ? atoi (argv [2]) : 20;
	int hangs = 0;

	if (!f) return 7;
	initKernels ();

	while (getline (& line, & lc, f) > 0) {
		if (numLines == cap) lines = __real_realloc (lines, sizeof (char *) * (cap = cap * 2 + 1024));
		lines [numLines ++] = strdup (line);
	}

	for (int i = 0; i < numLines;) {
		int j, st;
		pid_t pid;

		if (strncmp (lines [i], "===", 3) != 0) { i ++; continue; }
		for (j = i + 1; j < numLines && strncmp (lines [j], "===", 3) != 0; j ++);
		printf ("%s", lines [i]);
		if (hangs >= 2) { printf ("{\"crash\":\"skipped\"}\n"); i = j; continue; }
		fflush (stdout);
		pid = fork ();
		if (pid == 0) {
			alarm (timeout);
			runScenario (lines + i + 1, j - i - 1, 1);
			_exit (0);
		}
		waitpid (pid, & st, 0);
		if (WIFSIGNALED (st)) {
			if (WTERMSIG (st) == SIGALRM) { printf ("{\"crash\":\"hang\"}\n"); hangs ++; }
			else if (WTERMSIG (st) == SIGKILL) return 9; /* killed from outside: not a verdict */
			else printf ("{\"crash\":\"signal %d\"}\n", WTERMSIG (st));
		}
		else if (WEXITSTATUS (st) == 7 || WEXITSTATUS (st) == 8) return WEXITSTATUS (st);
		else if (WEXITSTATUS (st) != 0) printf ("{\"crash\":\"exit %d\"}\n", WEXITSTATUS (st));
		fflush (stdout);
		i = j;
	}

	return 0;
}
