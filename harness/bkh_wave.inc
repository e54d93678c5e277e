	/* WAVE files; a file is read back through its own descriptor */
	else if (IS ("fil.new")) { /* file mode bytes: mode rw, r, w or pipe */
		char name [] = "bkf.XXXXXX";
		FILE * fp;
		o = newObj (t [1], T_FILE, 0, 1);
		if (strcmp (t [2], "pipe") == 0) {
			int fd [2];
			if (pipe (fd)) { perror ("harness: pipe"); exit (7); }
			o -> p = fdopen (fd [0], "rb");
			o -> cbMode = fd [1];
		}
		else {
			int fd = mkstemp (name);
			if (fd < 0) { perror ("harness: mkstemp"); exit (7); }
			for (int i = 3; i < n; i ++) { unsigned char b = num (t [i]); if (write (fd, & b, 1) != 1) exit (7); }
			o -> cbMode = fd;
			fp = fopen (name, strcmp (t [2], "r") == 0 ? "rb" : "r+b");
			if (strcmp (t [2], "w") == 0) { fclose (fp); fp = fdopen (open (name, O_WRONLY), "wb"); }
			if (!fp) { perror ("harness: open"); exit (7); }
			unlink (name);
			fseek (fp, 0, SEEK_SET);
			o -> p = fp;
		}
	}
	else if (IS ("fil.add")) { /* file n bytes: the bytes n times at its end, its position stays */
		struct stat st;
		o = need (t [1]);
		fflush (o -> p);
		fstat (o -> cbMode, & st);
		for (long k = 0; k < num (t [2]); k ++)
			for (int i = 3; i < n; i ++) { unsigned char b = num (t [i]); if (pwrite (o -> cbMode, & b, 1, st.st_size ++) != 1) exit (7); }
	}
	else if (IS ("fil.pos")) { long a = num (t [2]); fseek (P (t [1]), a < 0 ? 0 : a, a < 0 ? SEEK_END : SEEK_SET); }
	else if (IS ("fil?")) { /* position and contents */
		struct stat st;
		unsigned char * b;
		o = need (t [1]);
		fflush (o -> p);
		fstat (o -> cbMode, & st);
		b = __real_malloc (st.st_size + 1);
		if (st.st_size && pread (o -> cbMode, b, st.st_size, 0) != st.st_size) { perror ("harness: pread"); exit (7); }
		for (long i = 0; i < st.st_size; i ++) X (b [i]);
		__real_free (b);
	}
	else if (IS ("wrt.new")) { /* writer file channels rate bits */
		o = newObj (t [1], T_WRI, sizeof (BKWaveFileWriter), 0);
		LIB (r = BKWaveFileWriterInit (o -> p, P (t [2]), num (t [3]), num (t [4]), num (t [5])));
		if (r < 0) o -> live = 0;
	}
	else if (IS ("wrt.add")) { /* writer values */
		int m = n - 2;
		BKFrame * f = __real_malloc (m * sizeof (BKFrame) + 1);
		for (int i = 0; i < m; i ++) f [i] = num (t [2 + i]);
		LIB (r = BKWaveFileWriterAppendFrames (P (t [1]), f, m));
		__real_free (f);
	}
	else if (IS ("wrt.end")) LIB (r = BKWaveFileWriterTerminate (P (t [1])));
	else if (IS ("wav.put")) LIB (r = BKWaveFileWriteData (P (t [1]), P (t [2]), num (t [3]), num (t [4]))); /* file data rate bits */
	else if (IS ("rdr.new")) {
		o = newObj (t [1], T_RDR, sizeof (BKWaveFileReader), 0);
		o -> ownSize = 0;
		LIB (r = BKWaveFileReaderInit (o -> p, P (t [2])));
		if (r < 0) o -> live = 0;
	}
	else if (IS ("rdr.hdr")) {
		BKInt c = -7, s = -7, m = -7;
		o = need (t [1]);
		LIB (r = BKWaveFileReaderReadHeader (o -> p, & c, & s, & m));
		if (r == 0) { X (c); X (s); X (m); o -> ownSize = (long) c * m > 100000 ? -1 : c * m; }
	}
	else if (IS ("rdr.read")) {
		BKFrame * f;
		o = need (t [1]);
		if (o -> ownSize < 0) exit (6); /* more than it was given to read */
		f = __real_malloc (o -> ownSize * sizeof (BKFrame) + (o -> ownSize ? 0 : 1)); /* exact size for the address checker */
		LIB (r = BKWaveFileReaderReadFrames (o -> p, f));
		if (r == 0) for (int i = 0; i < o -> ownSize; i ++) X (f [i]);
		__real_free (f);
	}
	else if (IS ("dat.wav")) LIB (r = BKDataLoadWAVE (P (t [1]), P (t [2])));
