	/* the parts contexts and tracks are made of, used directly */
	else if (IS ("sld.new")) { o = newObj (t [1], T_PART, sizeof (BKSlideState), 0); LIB (BKSlideStateInit (o -> p, num (t [2]))); }
	else if (IS ("sld.set")) LIB (BKSlideStateSetValueAndSteps (P (t [1]), num (t [2]), num (t [3])));
	else if (IS ("sld.val")) LIB (BKSlideStateSetValue (P (t [1]), num (t [2])));
	else if (IS ("sld.steps")) LIB (BKSlideStateSetSteps (P (t [1]), num (t [2])));
	else if (IS ("sld.halt")) { LIB (BKSlideStateHalt (P (t [1]), num (t [2]))); X (BKSlideStateGetValue (P (t [1]))); }
	else if (IS ("sld.step")) for (long i = num (t [2]); i > 0; i --) {
		LIB (BKSlideStateStep (P (t [1])));
		X (BKSlideStateGetValue (P (t [1])));
	}
	else if (IS ("itv.new")) { o = newObj (t [1], T_PART, sizeof (BKIntervalState), 0); LIB (BKIntervalStateInit (o -> p, num (t [2]))); }
	else if (IS ("itv.set")) LIB (BKIntervalStateSetDeltaAndSteps (P (t [1]), num (t [2]), num (t [3])));
	else if (IS ("itv.delta")) LIB (BKIntervalStateSetDelta (P (t [1]), num (t [2])));
	else if (IS ("itv.steps")) LIB (BKIntervalStateSetSteps (P (t [1]), num (t [2])));
	else if (IS ("itv.step")) for (long i = num (t [2]); i > 0; i --) {
		LIB (BKIntervalStateStep (P (t [1])));
		X (BKIntervalStateGetValue (P (t [1])));
	}
	else if (IS ("itv.get")) X (BKIntervalStateGetValue (P (t [1])));
	else if (IS ("seq.new") || IS ("env.new")) { /* sequence offset length count values (or steps and values) */
		int env = IS ("env.new"), k = num (t [4]), w = env ? 2 : 1;
		BKInt * v = __real_malloc (k * w * sizeof (BKInt) + 1);
		BKSequence * s = NULL;
		for (int i = 0; i < k * w; i ++) v [i] = num (t [5 + i]);
		o = newObj (t [1], T_PSEQ, 0, 1);
		LIB (r = BKSequenceCreate (& s, env ? & BKSequenceFuncsEnvelope : & BKSequenceFuncsSimple, v, k, num (t [2]), num (t [3])));
		o -> p = s;
		if (r < 0) o -> live = 0;
		__real_free (v);
	}
	else if (IS ("seq.copy")) {
		BKSequence * s = NULL;
		o = newObj (t [1], T_PSEQ, 0, 1);
		LIB (r = BKSequenceCopy (& s, P (t [2])));
		o -> p = s;
		if (r < 0) o -> live = 0;
	}
	else if (IS ("sst.new")) { o = newObj (t [1], T_PART, sizeof (BKSequenceState), 0); memset (o -> p, 0, sizeof (BKSequenceState)); }
	else if (IS ("sst.seq")) { BKSequenceState * s = P (t [1]); LIB (r = BKSequenceStateSetSequence (s, P (t [2]))); X (s -> value); }
	else if (IS ("sst.ph")) { BKSequenceState * s = P (t [1]); LIB (r = BKSequenceStateSetPhase (s, num (t [2]))); X (s -> value); }
	else if (IS ("sst.val")) { BKSequenceState * s = P (t [1]); LIB (r = BKSequenceStateSetValue (s, num (t [2]))); X (s -> value); }
	else if (IS ("sst.step")) {
		BKSequenceState * s = P (t [1]);
		for (long i = num (t [3]); i > 0; i --) { LIB (r = BKSequenceStateStep (s, num (t [2]))); X (r == BK_INVALID_STATE ? -104 : r); X (s -> value); }
	}
	else if (IS ("buf.new")) { o = newObj (t [1], T_PART, sizeof (BKBuffer), 0); o -> cbMode = 1; LIB (r = BKBufferInit (o -> p)); }
	else if (IS ("buf.ker")) { BKBuffer * b = P (t [1]); b -> pulse = kernelOf (t [2]); }
	else if (IS ("buf.add")) LIB (r = BKBufferAddPulse (P (t [1]), T (t [2], t [3]), num (t [4])));
	else if (IS ("buf.frm")) LIB (r = BKBufferAddFrame (P (t [1]), T (t [2], t [3]), num (t [4])));
	else if (IS ("buf.end")) LIB (r = BKBufferEnd (P (t [1]), T (t [2], t [3])));
	else if (IS ("buf.shift")) LIB (r = BKBufferShift (P (t [1]), T (t [2], t [3])));
	else if (IS ("buf.size")) LIB (r = BKBufferSize (P (t [1])));
	else if (IS ("buf.clr")) LIB (BKBufferClear (P (t [1])));
	else if (IS ("buf.read")) { /* buffer size interlace */
		long sz = num (t [2]), il = num (t [3]) < 1 ? 1 : num (t [3]), tot = sz * il;
		BKFrame * f = __real_malloc (tot * sizeof (BKFrame) + 1);
		for (long i = 0; i < tot; i ++) f [i] = 0x5AA5;
		LIB (r = BKBufferRead (P (t [1]), f, sz, num (t [3])));
		for (long i = 0; i < r; i ++) X (f [i * il]);
		for (long i = 0; i < tot; i ++)
			if (f [i] != 0x5AA5 && (i % il || i / il >= r)) badGuard = 1;
		__real_free (f);
	}
