package tlc2.overrides;

import java.io.BufferedWriter;
import java.io.FileWriter;
import java.io.IOException;
import tlc2.value.impl.*;
import util.UniqueString;

/**
 * Accelerated versions of operators that are *defined* in TLA+ (modules Bytes, KeccakP, Xoodoo); the definitions are
 * evaluated without these classes, and compared with them, by spec/MCPrim.tla (check tools/run.py selfcheck, C01, C02).
 */
public class XkcpOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() {
        return new Class[] { XkcpOverrides.class };
    }

    private static final IntValue[] BYTE = new IntValue[256];
    static {
        for (int i = 0; i < 256; i++) BYTE[i] = IntValue.gen(i);
    }

    static byte[] bytes(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("not a sequence: " + v.getKindString());
        Value[] e = t.elems;
        byte[] b = new byte[e.length];
        for (int i = 0; i < b.length; i++) b[i] = (byte) ((IntValue) e[i]).val;
        return b;
    }

    static Value tuple(byte[] b, int off, int n) {
        Value[] e = new Value[n];
        for (int i = 0; i < n; i++) e[i] = BYTE[b[off + i] & 255];
        return new TupleValue(e);
    }

    static Value tuple(byte[] b) {
        return tuple(b, 0, b.length);
    }

    static int i(Value v) {
        return ((IntValue) v).val;
    }

    @TLAPlusOperator(identifier = "CXorS", module = "Bytes", warn = false)
    public static Value xors(final Value a, final Value b) {
        Value[] x = ((TupleValue) a.toTuple()).elems, y = ((TupleValue) b.toTuple()).elems;
        Value[] r = new Value[x.length];
        for (int i = 0; i < r.length; i++) r[i] = BYTE[(i(x[i]) ^ i(y[i])) & 255];
        return new TupleValue(r);
    }

    @TLAPlusOperator(identifier = "CAndS", module = "Bytes", warn = false)
    public static Value ands(final Value a, final Value b) {
        Value[] x = ((TupleValue) a.toTuple()).elems, y = ((TupleValue) b.toTuple()).elems;
        Value[] r = new Value[x.length];
        for (int i = 0; i < r.length; i++) r[i] = BYTE[(i(x[i]) & i(y[i])) & 255];
        return new TupleValue(r);
    }

    @TLAPlusOperator(identifier = "CXorAt", module = "Bytes", warn = false)
    public static Value xorAt(final Value s, final Value off, final Value d) {
        Value[] x = ((TupleValue) s.toTuple()).elems, y = ((TupleValue) d.toTuple()).elems;
        Value[] r = x.clone();
        int o = i(off);
        for (int k = 0; k < y.length; k++) r[o + k] = BYTE[(i(x[o + k]) ^ i(y[k])) & 255];
        return new TupleValue(r);
    }

    @TLAPlusOperator(identifier = "PutAt", module = "Bytes", warn = false)
    public static Value putAt(final Value s, final Value off, final Value d) {
        Value[] x = ((TupleValue) s.toTuple()).elems, y = ((TupleValue) d.toTuple()).elems;
        Value[] r = x.clone();
        System.arraycopy(y, 0, r, i(off), y.length);
        return new TupleValue(r);
    }

    @TLAPlusOperator(identifier = "Slice", module = "Bytes", warn = false)
    public static Value slice(final Value s, final Value off, final Value n) {
        Value[] x = ((TupleValue) s.toTuple()).elems;
        Value[] r = new Value[i(n)];
        System.arraycopy(x, i(off), r, 0, r.length);
        return new TupleValue(r);
    }

    @TLAPlusOperator(identifier = "Rep", module = "Bytes", warn = false)
    public static Value rep(final Value b, final Value n) {
        Value[] r = new Value[i(n)];
        java.util.Arrays.fill(r, b);
        return new TupleValue(r);
    }

    static int genByte(int seed, long i) {
        if (seed == 0) return 0;
        if (seed == 1) return 255;
        long m = ((seed % 100003) * 7919L + 12345) % 32749 + 1;
        long t = ((i % 65521) + 1) * m;
        return (int) ((t / 257 + (t / 65536) * 3 + i / 251 + (t % 251) * (i % 13 + 1)) % 256);
    }

    @TLAPlusOperator(identifier = "Gen", module = "Bytes", warn = false)
    public static Value gen(final Value seed, final Value off, final Value n) {
        Value[] r = new Value[i(n)];
        int s = i(seed), o = i(off);
        for (int k = 0; k < r.length; k++) r[k] = BYTE[genByte(s, (long) o + k)];
        return new TupleValue(r);
    }

    // ---- rolling functions of Kravatte and Xoofff ----
    static long le(byte[] s, int off, int w) {
        long v = 0;
        for (int k = w - 1; k >= 0; k--) v = (v << 8) | (s[off + k] & 255);
        return v;
    }

    static void put(byte[] s, int off, int w, long v) {
        for (int k = 0; k < w; k++) s[off + k] = (byte) (v >>> (8 * k));
    }

    static Value roll(final Value kind, final Value state, boolean out) {
        byte[] s = bytes(state);
        if (((StringValue) kind).val.toString().equals("K")) {
            int a = out ? 15 : 20;
            long x0 = le(s, 8 * a, 8), x1 = le(s, 8 * a + 8, 8), x2 = le(s, 8 * a + 16, 8);
            System.arraycopy(s, 8 * a + 8, s, 8 * a, 200 - 8 * a - 8);
            put(s, 192, 8, out ? Long.rotateLeft(x0, 7) ^ Long.rotateLeft(x1, 18) ^ (x2 & (x1 >>> 1)) : Long.rotateLeft(x0, 7) ^ x1 ^ (x1 >>> 3));
            return tuple(s);
        }
        int x0 = (int) le(s, 0, 4), x4 = (int) le(s, 16, 4), x8 = (int) le(s, 32, 4);
        byte[] r = new byte[48];
        System.arraycopy(s, 16, r, 0, 32);
        System.arraycopy(s, 4, r, 32, 12);
        put(r, 44, 4, out ? Integer.rotateLeft(x0, 5) ^ Integer.rotateLeft(x4, 13) ^ (x8 & x4) ^ 7 : x0 ^ (x0 << 13) ^ Integer.rotateLeft(x4, 3));
        return tuple(r);
    }

    @TLAPlusOperator(identifier = "CRollC", module = "Rolls", warn = false)
    public static Value rollc(final Value kind, final Value state) {
        return roll(kind, state, false);
    }

    @TLAPlusOperator(identifier = "CRollE", module = "Rolls", warn = false)
    public static Value rolle(final Value kind, final Value state) {
        return roll(kind, state, true);
    }

    // ---- Keccak-p[1600] ----
    private static final long[] RC = new long[24];
    private static final int[] ROT = new int[25], TO = new int[25];
    static {
        // iota constants from the LFSR x^8+x^6+x^5+x^4+1, rho offsets from the walk (x,y) -> (y,2x+3y)
        int lfsr = 1;
        for (int r = 0; r < 24; r++) {
            long c = 0;
            for (int j = 0; j < 7; j++) {
                if ((lfsr & 1) != 0) c ^= 1L << ((1 << j) - 1);
                lfsr = (lfsr & 0x80) != 0 ? ((lfsr << 1) ^ 0x171) : (lfsr << 1);
            }
            RC[r] = c;
        }
        for (int k = 0; k < 25; k++) TO[k] = k / 5 + 5 * ((2 * (k % 5) + 3 * (k / 5)) % 5);
        int x = 1, y = 0;
        for (int t = 0; t < 24; t++) {
            ROT[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64;
            int ny = (2 * x + 3 * y) % 5;
            x = y;
            y = ny;
        }
    }

    static void keccakP(long[] a, int nr) {
        long[] b = new long[25];
        for (int r = 24 - nr; r < 24; r++) {
            long c0 = a[0] ^ a[5] ^ a[10] ^ a[15] ^ a[20], c1 = a[1] ^ a[6] ^ a[11] ^ a[16] ^ a[21], c2 = a[2] ^ a[7] ^ a[12] ^ a[17] ^ a[22];
            long c3 = a[3] ^ a[8] ^ a[13] ^ a[18] ^ a[23], c4 = a[4] ^ a[9] ^ a[14] ^ a[19] ^ a[24];
            long d0 = c4 ^ Long.rotateLeft(c1, 1), d1 = c0 ^ Long.rotateLeft(c2, 1), d2 = c1 ^ Long.rotateLeft(c3, 1);
            long d3 = c2 ^ Long.rotateLeft(c4, 1), d4 = c3 ^ Long.rotateLeft(c0, 1);
            for (int y = 0; y < 25; y += 5) {
                b[TO[y]] = Long.rotateLeft(a[y] ^ d0, ROT[y]);
                b[TO[y + 1]] = Long.rotateLeft(a[y + 1] ^ d1, ROT[y + 1]);
                b[TO[y + 2]] = Long.rotateLeft(a[y + 2] ^ d2, ROT[y + 2]);
                b[TO[y + 3]] = Long.rotateLeft(a[y + 3] ^ d3, ROT[y + 3]);
                b[TO[y + 4]] = Long.rotateLeft(a[y + 4] ^ d4, ROT[y + 4]);
            }
            for (int y = 0; y < 25; y += 5) {
                long b0 = b[y], b1 = b[y + 1], b2 = b[y + 2], b3 = b[y + 3], b4 = b[y + 4];
                a[y] = b0 ^ (~b1 & b2);
                a[y + 1] = b1 ^ (~b2 & b3);
                a[y + 2] = b2 ^ (~b3 & b4);
                a[y + 3] = b3 ^ (~b4 & b0);
                a[y + 4] = b4 ^ (~b0 & b1);
            }
            a[0] ^= RC[r];
        }
    }

    static long[] lanes(Value[] e) {
        long[] a = new long[25];
        for (int k = 0; k < 200; k++) a[k >> 3] |= ((long) (i(e[k]) & 255)) << (8 * (k & 7));
        return a;
    }

    static Value unlanes(long[] a) {
        Value[] r = new Value[200];
        for (int k = 0; k < 200; k++) r[k] = BYTE[(int) (a[k >> 3] >>> (8 * (k & 7))) & 255];
        return new TupleValue(r);
    }

    @TLAPlusOperator(identifier = "KeccakP", module = "KeccakP", warn = false)
    public static Value keccakP(final Value nr, final Value s) {
        long[] a = lanes(((TupleValue) s.toTuple()).elems);
        keccakP(a, i(nr));
        return unlanes(a);
    }

    /** Absorb the whole blocks of data (rate bytes each) into s: XOR then permute. */
    @TLAPlusOperator(identifier = "KAbsorbBlocks", module = "KeccakP", warn = false)
    public static Value kAbsorbBlocks(final Value nr, final Value s, final Value rateBytes, final Value data) {
        long[] a = lanes(((TupleValue) s.toTuple()).elems);
        Value[] d = ((TupleValue) data.toTuple()).elems;
        int rb = i(rateBytes), n = d.length / rb, p = 0, rounds = i(nr);
        for (int k = 0; k < n; k++) {
            for (int j = 0; j < rb; j++) a[j >> 3] ^= ((long) (i(d[p++]) & 255)) << (8 * (j & 7));
            keccakP(a, rounds);
        }
        return unlanes(a);
    }

    /** As KAbsorbBlocks with `count` copies of one block of data (used for huge periodic messages). */
    @TLAPlusOperator(identifier = "KAbsorbRepeated", module = "KeccakP", warn = false)
    public static Value kAbsorbRepeated(final Value nr, final Value s, final Value rateBytes, final Value data, final Value count) {
        long[] a = lanes(((TupleValue) s.toTuple()).elems);
        byte[] d = bytes(data);
        int rb = i(rateBytes), n = i(count), p = 0, rounds = i(nr);
        for (int k = 0; k < n; k++) {
            for (int j = 0; j < rb; j++) {
                a[j >> 3] ^= ((long) (d[p] & 255)) << (8 * (j & 7));
                if (++p == d.length) p = 0;
            }
            keccakP(a, rounds);
        }
        return unlanes(a);
    }

    // ---- Xoodoo ----
    private static final int[] XRC = { 0x058, 0x038, 0x3C0, 0x0D0, 0x120, 0x014, 0x060, 0x02C, 0x380, 0x0F0, 0x1A0, 0x012 };

    static void xoodoo(int[] a, int nr) {
        int[] b = new int[12];
        for (int r = 12 - nr; r < 12; r++) {
            int p0 = a[0] ^ a[4] ^ a[8], p1 = a[1] ^ a[5] ^ a[9], p2 = a[2] ^ a[6] ^ a[10], p3 = a[3] ^ a[7] ^ a[11];
            int e0 = Integer.rotateLeft(p3, 5) ^ Integer.rotateLeft(p3, 14), e1 = Integer.rotateLeft(p0, 5) ^ Integer.rotateLeft(p0, 14);
            int e2 = Integer.rotateLeft(p1, 5) ^ Integer.rotateLeft(p1, 14), e3 = Integer.rotateLeft(p2, 5) ^ Integer.rotateLeft(p2, 14);
            b[0] = a[0] ^ e0 ^ XRC[r]; b[1] = a[1] ^ e1; b[2] = a[2] ^ e2; b[3] = a[3] ^ e3;
            b[5] = a[4] ^ e0; b[6] = a[5] ^ e1; b[7] = a[6] ^ e2; b[4] = a[7] ^ e3;
            b[8] = Integer.rotateLeft(a[8] ^ e0, 11); b[9] = Integer.rotateLeft(a[9] ^ e1, 11);
            b[10] = Integer.rotateLeft(a[10] ^ e2, 11); b[11] = Integer.rotateLeft(a[11] ^ e3, 11);
            for (int x = 0; x < 4; x++) {
                int a0 = b[x], a1 = b[4 + x], a2 = b[8 + x];
                a[x] = a0 ^ (~a1 & a2);
                a[4 + x] = Integer.rotateLeft(a1 ^ (~a2 & a0), 1);
                a[8 + ((x + 2) & 3)] = Integer.rotateLeft(a2 ^ (~a0 & a1), 8);
            }
        }
    }

    @TLAPlusOperator(identifier = "XoodooP", module = "Xoodoo", warn = false)
    public static Value xoodooP(final Value nr, final Value s) {
        Value[] e = ((TupleValue) s.toTuple()).elems;
        int[] a = new int[12];
        for (int k = 0; k < 48; k++) a[k >> 2] |= (i(e[k]) & 255) << (8 * (k & 3));
        xoodoo(a, i(nr));
        Value[] r = new Value[48];
        for (int k = 0; k < 48; k++) r[k] = BYTE[(a[k >> 2] >>> (8 * (k & 3))) & 255];
        return new TupleValue(r);
    }

    // ---- streams (module Streams) ----
    static Value field(Value r, String f) {
        return (Value) ((RecordValue) r.toRcd()).select(new StringValue(f));
    }

    private static final java.util.HashMap<Long, byte[]> PERIODS = new java.util.HashMap<>();

    /** A long string, read piece by piece. */
    static abstract class Src {
        abstract int next(byte[] b, int off, int n);
        final int fill(byte[] b, int n) {
            int k = 0;
            while (k < n) {
                int m = next(b, k, n - k);
                if (m == 0) break;
                k += m;
            }
            return k;
        }
    }

    static class Period extends Src {
        final byte[] d;
        int pos;
        long left;
        Period(Value g) {
            int T = i(field(g, "T")), s = i(field(g, "s"));
            synchronized (PERIODS) {
                d = PERIODS.computeIfAbsent(((long) T << 32) | s, key -> {
                    byte[] x = new byte[T];
                    for (int k = 0; k < T; k++) x[k] = (byte) genByte(s, k);
                    return x;
                });
            }
            pos = i(field(g, "o")) % T;
            left = len(g);
        }
        static long len(Value g) {
            return (long) i(field(g, "q")) * i(field(g, "T")) + i(field(g, "r"));
        }
        int next(byte[] b, int off, int n) {
            int k = (int) Math.min(Math.min(n, left), d.length - pos);
            System.arraycopy(d, pos, b, off, k);
            pos += k;
            if (pos == d.length) pos = 0;
            left -= k;
            return k;
        }
    }

    static class Literal extends Src {
        final byte[] d;
        int pos;
        Literal(byte[] d) { this.d = d; }
        int next(byte[] b, int off, int n) {
            int k = Math.min(n, d.length - pos);
            System.arraycopy(d, pos, b, off, k);
            pos += k;
            return k;
        }
    }

    static class Sequence extends Src {
        final Src[] s;
        int k;
        Sequence(Src... s) { this.s = s; }
        int next(byte[] b, int off, int n) {
            for (; k < s.length; k++) {
                int m = s[k].next(b, off, n);
                if (m > 0) return m;
            }
            return 0;
        }
    }

    /** A permutation state with its rolling functions. */
    static final class Far {
        final boolean kec;
        final int w;
        final long[] y = new long[25], t = new long[25], m = new long[25];
        final int[] y4 = new int[12], t4 = new int[12], m4 = new int[12];
        Far(boolean kec) { this.kec = kec; w = kec ? 200 : 48; }
        static void load(byte[] b, int off, long[] a) { for (int k = 0; k < 25; k++) a[k] = (long) LONGS.get(b, off + 8 * k); }
        static void load(byte[] b, int off, int[] a) { for (int k = 0; k < 12; k++) a[k] = (int) INTS.get(b, off + 4 * k); }
        void set(byte[] b, boolean mask) { if (kec) load(b, 0, mask ? m : y); else load(b, 0, mask ? m4 : y4); }
        byte[] get(boolean mask) {
            byte[] b = new byte[w];
            if (kec) for (int k = 0; k < 25; k++) LONGS.set(b, 8 * k, (mask ? m : y)[k]);
            else for (int k = 0; k < 12; k++) INTS.set(b, 4 * k, (mask ? m4 : y4)[k]);
            return b;
        }
        void rollc() {
            if (kec) {
                long x0 = m[20], x1 = m[21];
                System.arraycopy(m, 21, m, 20, 4);
                m[24] = Long.rotateLeft(x0, 7) ^ x1 ^ (x1 >>> 3);
            } else {
                int x0 = m4[0], x4 = m4[4];
                plane(m4, x0 ^ (x0 << 13) ^ Integer.rotateLeft(x4, 3));
            }
        }
        void rolle() {
            if (kec) {
                long x0 = y[15], x1 = y[16], x2 = y[17];
                System.arraycopy(y, 16, y, 15, 9);
                y[24] = Long.rotateLeft(x0, 7) ^ Long.rotateLeft(x1, 18) ^ (x2 & (x1 >>> 1));
            } else {
                int x0 = y4[0], x4 = y4[4], x8 = y4[8];
                plane(y4, Integer.rotateLeft(x0, 5) ^ Integer.rotateLeft(x4, 13) ^ (x8 & x4) ^ 7);
            }
        }
        private static void plane(int[] s, int last) {
            int a = s[1], b = s[2], c = s[3];
            System.arraycopy(s, 4, s, 0, 8);
            s[8] = a; s[9] = b; s[10] = c; s[11] = last;
        }
        /** y += P(block + m), m rolled */
        void block(byte[] b, int off) {
            if (kec) {
                load(b, off, t);
                for (int k = 0; k < 25; k++) t[k] ^= m[k];
                keccakP(t, 6);
                for (int k = 0; k < 25; k++) y[k] ^= t[k];
            } else {
                load(b, off, t4);
                for (int k = 0; k < 12; k++) t4[k] ^= m4[k];
                xoodoo(t4, 6);
                for (int k = 0; k < 12; k++) y4[k] ^= t4[k];
            }
            rollc();
        }
        /** P(y) + m, y rolled */
        void out(byte[] b) {
            if (kec) {
                System.arraycopy(y, 0, t, 0, 25);
                keccakP(t, 6);
                for (int k = 0; k < 25; k++) LONGS.set(b, 8 * k, t[k] ^ m[k]);
            } else {
                System.arraycopy(y4, 0, t4, 0, 12);
                xoodoo(t4, 6);
                for (int k = 0; k < 12; k++) INTS.set(b, 4 * k, t4[k] ^ m4[k]);
            }
            rolle();
        }
    }
    static final java.lang.invoke.VarHandle LONGS = java.lang.invoke.MethodHandles.byteArrayViewVarHandle(long[].class, java.nio.ByteOrder.LITTLE_ENDIAN);
    static final java.lang.invoke.VarHandle INTS = java.lang.invoke.MethodHandles.byteArrayViewVarHandle(int[].class, java.nio.ByteOrder.LITTLE_ENDIAN);

    static boolean isK(Value kd) {
        return ((StringValue) kd).val.toString().equals("K");
    }

    /** What a deck function gives out. */
    static class Output extends Src {
        final Far f;
        final byte[] b;
        int pos;
        Output(Value kd, Value y, Value m, long skip) {
            f = new Far(isK(kd));
            f.set(bytes(y), false);
            f.set(bytes(m), true);
            b = new byte[f.w];
            for (; skip >= f.w; skip -= f.w) f.rolle();
            f.out(b);
            pos = (int) skip;
        }
        int next(byte[] x, int off, int n) {
            if (pos == b.length) { f.out(b); pos = 0; }
            int k = Math.min(n, b.length - pos);
            System.arraycopy(b, pos, x, off, k);
            pos += k;
            return k;
        }
    }

    static class Sum extends Src {
        final Src a, z;
        byte[] u = new byte[4096];
        Sum(Src a, Src z) { this.a = a; this.z = z; }
        int next(byte[] b, int off, int n) {
            int k = a.next(b, off, Math.min(n, u.length));
            if (z.fill(u, k) != k) throw new RuntimeException("streams of different lengths");
            for (int j = 0; j < k; j++) b[off + j] ^= u[j];
            return k;
        }
    }

    static Src seg(Value g) {
        String t = ((StringValue) field(g, "t")).val.toString();
        if (t.equals("lit")) return new Literal(bytes(field(g, "b")));
        if (t.equals("cyc")) return new Period(g);
        return new Sum(new Period(field(g, "c")), new Output(field(g, "kd"), field(g, "y"), field(g, "m"), i(field(g, "k"))));
    }

    static Src stream(Value gs) {
        Value[] e = ((TupleValue) gs.toTuple()).elems;
        Src[] s = new Src[e.length];
        for (int k = 0; k < s.length; k++) s[k] = seg(e[k]);
        return new Sequence(s);
    }

    static Value pair(Value a, Value b) {
        return new TupleValue(new Value[] { a, b });
    }

    static final class Sponge {
        final long[] a;
        int ix;
        final int rb, nr;
        final byte[] b;
        final long[] pd = new long[25];
        Sponge(int nr, long[] a, int ix, int rb, byte[] p) {
            this.nr = nr; this.a = a; this.ix = ix; this.rb = rb;
            b = new byte[rb];
            for (int j = 0; j < p.length; j++) pd[j >> 3] ^= (p[j] & 255L) << (8 * (j & 7));
        }
        void perm() {
            for (int j = 0; j < 25; j++) a[j] ^= pd[j];
            keccakP(a, nr);
        }
        void absorb(Src s) {
            for (;;) {
                int k = s.fill(b, rb - ix);
                if (k == rb && rb % 8 == 0)
                    for (int j = 0; j < rb; j += 8) a[j >> 3] ^= (long) LONGS.get(b, j);
                else
                    for (int j = 0; j < k; j++) a[(ix + j) >> 3] ^= (b[j] & 255L) << (8 * ((ix + j) & 7));
                ix += k;
                if (ix < rb) return;
                perm();
                ix = 0;
            }
        }
        void pad(int d) {
            a[ix >> 3] ^= ((long) d & 255) << (8 * (ix & 7));
            a[(rb - 1) >> 3] ^= 128L << (8 * ((rb - 1) & 7));
            keccakP(a, nr);
        }
        byte[] squeeze(int n) {
            byte[] o = new byte[n];
            for (int j = 0; j < n; j++) {
                if (j > 0 && j % rb == 0) keccakP(a, nr);
                o[j] = (byte) (a[(j % rb) >> 3] >>> (8 * (j % rb & 7)));
            }
            return o;
        }
        Value value() { return pair(unlanes(a), IntValue.gen(ix)); }
    }

    static long[] lanes(Value st) { return lanes(((TupleValue) st.toTuple()).elems); }

    @TLAPlusOperator(identifier = "StAbsorb", module = "Streams", warn = false)
    public static Value stAbsorb(final Value nr, final Value st, final Value ix, final Value rb, final Value pd, final Value gs) {
        Sponge p = new Sponge(i(nr), lanes(st), i(ix), i(rb), bytes(pd));
        p.absorb(stream(gs));
        return p.value();
    }

    @TLAPlusOperator(identifier = "StSkip", module = "Streams", warn = false)
    public static Value stSkip(final Value nr, final Value st, final Value ix, final Value rb, final Value pd, final Value c) {
        Sponge p = new Sponge(i(nr), lanes(st), i(ix), i(rb), bytes(pd));
        int r = i(rb);
        long n = Period.len(c);
        while (n > 0) {
            if (p.ix == r) { p.perm(); p.ix = 0; }
            int k = (int) Math.min(n, r - p.ix);
            p.ix += k;
            n -= k;
        }
        return p.value();
    }

    @TLAPlusOperator(identifier = "StTree", module = "Streams", warn = false)
    public static Value stTree(final Value vnr, final Value st, final Value ix, final Value vrb, final Value vd, final Value vchunk,
                               final Value vcv, final Value gs, final Value vskip) {
        int nr = i(vnr), rb = i(vrb), d = i(vd), chunk = i(vchunk), cv = i(vcv), skip = i(vskip);
        Sponge f = new Sponge(nr, lanes(st), i(ix), rb, new byte[0]);
        Src s = stream(gs);
        byte[] b = new byte[chunk];
        for (int k = 0; k < skip; k++) s.fill(b, chunk);
        for (;;) {
            int n = s.fill(b, chunk);
            if (n == 0) return f.value();
            Sponge l = new Sponge(nr, new long[25], 0, rb, new byte[0]);
            l.absorb(new Literal(n == chunk ? b : java.util.Arrays.copyOf(b, n)));
            l.pad(d);
            f.absorb(new Literal(l.squeeze(cv)));
        }
    }

    @TLAPlusOperator(identifier = "FarSum", module = "Streams", warn = false)
    public static Value farSum(final Value kd, final Value gs, final Value a, final Value m) {
        Far f = new Far(isK(kd));
        f.set(bytes(a), false);
        f.set(bytes(m), true);
        Src s = stream(gs);
        byte[] b = new byte[f.w];
        while (s.fill(b, f.w) == f.w) f.block(b, 0);
        return pair(tuple(f.get(false)), tuple(f.get(true)));
    }

    @TLAPlusOperator(identifier = "FarTail", module = "Streams", warn = false)
    public static Value farTail(final Value kd, final Value y, final Value m, final Value k, final Value c, final Value n) {
        Src o = new Output(kd, y, m, i(k) + Period.len(c) - i(n));
        byte[] b = new byte[i(n)];
        o.fill(b, b.length);
        return tuple(b);
    }

    static final class Cyclist {
        final int[] a = new int[12];
        final boolean hash;
        Cyclist(Value s, boolean hash) {
            Far.load(bytes(s), 0, a);
            this.hash = hash;
        }
        void add(int pos, int v) { a[pos >> 2] ^= (v & 255) << (8 * (pos & 3)); }
        int at(int pos) { return (a[pos >> 2] >>> (8 * (pos & 3))) & 255; }
        void down(byte[] x, int n, int cd) {
            for (int k = 0; k < n; k++) add(k, x[k]);
            add(n, 1);
            add(47, hash ? cd & 1 : cd);
        }
        void up(int cu) {
            if (!hash) add(47, cu);
            xoodoo(a, 12);
        }
        Value value() {
            byte[] b = new byte[48];
            for (int k = 0; k < 12; k++) INTS.set(b, 4 * k, a[k]);
            return tuple(b);
        }
    }

    static boolean bool(Value v) {
        return ((BoolValue) v).val;
    }

    @TLAPlusOperator(identifier = "CyAbsorb", module = "Streams", warn = false)
    public static Value cyAbsorb(final Value s, final Value up, final Value hash, final Value r, final Value cd, final Value gs) {
        Cyclist y = new Cyclist(s, bool(hash));
        Src src = stream(gs);
        byte[] b = new byte[i(r)];
        boolean ready = bool(up);
        int d = i(cd), n = src.fill(b, b.length);
        do {
            if (!ready) y.up(0);
            y.down(b, n, d);
            d = 0;
            ready = false;
            n = src.fill(b, b.length);
        } while (n > 0);
        return y.value();
    }

    /** The last bytes of a long string. */
    static final class Last {
        final byte[] b;
        long n;
        Last(int w) { b = new byte[w]; }
        void put(int v) { b[(int) (n++ % b.length)] = (byte) v; }
        Value value() {
            byte[] o = new byte[b.length];
            for (int k = 0; k < o.length; k++) o[k] = b[(int) ((n + k) % b.length)];
            return tuple(o);
        }
    }

    @TLAPlusOperator(identifier = "CySqueeze", module = "Streams", warn = false)
    public static Value cySqueeze(final Value s, final Value hash, final Value r, final Value cu, final Value c, final Value w) {
        Cyclist y = new Cyclist(s, bool(hash));
        Last o = new Last(i(w));
        long n = Period.len(c);
        y.up(i(cu));
        for (;;) {
            int k = (int) Math.min(n, i(r));
            n -= k;
            if (n < 4096) for (int j = 0; j < k; j++) o.put(y.at(j)); else o.n += k;
            if (n == 0) return pair(y.value(), o.value());
            y.down(null, 0, 0);
            y.up(0);
        }
    }

    @TLAPlusOperator(identifier = "CyCrypt", module = "Streams", warn = false)
    public static Value cyCrypt(final Value s, final Value r, final Value dec, final Value c, final Value w) {
        Cyclist y = new Cyclist(s, false);
        Last o = new Last(i(w));
        Src src = new Period(c);
        byte[] b = new byte[i(r)], x = new byte[i(r)];
        long n = Period.len(c);
        int cu = 128;
        for (;;) {
            int k = src.fill(b, b.length);
            n -= k;
            y.up(cu);
            cu = 0;
            for (int j = 0; j < k; j++) x[j] = (byte) (y.at(j) ^ b[j]);
            if (n < 4096) for (int j = 0; j < k; j++) o.put(x[j]); else o.n += k;
            y.down(bool(dec) ? x : b, k, 0);
            if (n == 0) return pair(y.value(), o.value());
        }
    }

    // ---- pseudo-random choices (MINSTD, defined in TLA+ in module Rng) ----
    static int minstd(int x) {
        return (int) ((x * 16807L) % 2147483647L);
    }

    @TLAPlusOperator(identifier = "Minstd", module = "Rng", warn = false)
    public static Value minstd(final Value x) {
        return IntValue.gen(minstd(i(x)));
    }

    // ---- injective naming of values ----
    private static final java.util.HashMap<Value, IntValue> NAMES = new java.util.HashMap<>();

    @TLAPlusOperator(identifier = "Intern", module = "Intern", warn = false)
    public static Value intern(final Value v) {
        v.deepNormalize();
        synchronized (NAMES) {
            IntValue n = NAMES.get(v);
            if (n == null) {
                n = IntValue.gen(NAMES.size() + 1);
                NAMES.put(v, n);
            }
            return n;
        }
    }

    // ---- output of behaviours ----
    private static BufferedWriter out;

    private static void render(StringBuilder sb, Value v) {
        if (v instanceof IntValue) {
            sb.append(((IntValue) v).val);
        } else if (v instanceof StringValue) {
            sb.append(((StringValue) v).val.toString());
        } else if (v instanceof BoolValue) {
            sb.append(((BoolValue) v).val ? 1 : 0);
        } else if (v instanceof RecordValue) {
            // a data descriptor [s, o, n]: generated data
            RecordValue r = (RecordValue) v;
            if (r.names.length == 6) {          // a run through a period
                sb.append('c').append(i(field(r, "s"))).append(':').append(i(field(r, "T"))).append(':').append(i(field(r, "o")))
                  .append(':').append(i(field(r, "q"))).append(':').append(i(field(r, "r")));
                return;
            }
            if (r.names.length == 1) {          // a large number
                sb.append(new java.math.BigInteger(1, bytes(field(r, "big"))));
                return;
            }
            sb.append('g').append(i((Value) r.select(new StringValue("s")))).append(':')
              .append(i((Value) r.select(new StringValue("o")))).append(':').append(i((Value) r.select(new StringValue("n"))));
        } else {
            TupleValue t = (TupleValue) v.toTuple();
            if (t == null) throw new RuntimeException("cannot render " + v.getKindString());
            if (t.elems.length > 0 && !(t.elems[0] instanceof IntValue)) {
                // a list of data arguments
                sb.append('[');
                for (int k = 0; k < t.elems.length; k++) {
                    if (k > 0) sb.append(',');
                    render(sb, t.elems[k]);
                }
                sb.append(']');
                return;
            }
            sb.append('x');
            final String h = "0123456789abcdef";
            for (Value e : t.elems) {
                int b = i(e);
                if (b < 0 || b > 255) throw new RuntimeException("not a byte: " + b);
                sb.append(h.charAt(b >> 4)).append(h.charAt(b & 15));
            }
        }
    }

    @TLAPlusOperator(identifier = "Emit", module = "Emit", warn = false)
    public static Value emit(final Value bid, final Value step, final Value op, final Value rec) throws IOException {
        StringBuilder sb = new StringBuilder(256);
        sb.append(i(bid)).append(' ').append(i(step)).append(' ').append(((StringValue) op).val.toString());
        if (!(rec instanceof TupleValue && ((TupleValue) rec).elems.length == 0)) {
            RecordValue r = (RecordValue) rec.toRcd();
            for (int k = 0; k < r.names.length; k++) {
                if (r.names[k].equals("op")) continue;
                sb.append(' ').append(r.names[k].toString()).append('=');
                render(sb, r.values[k]);
            }
        }
        sb.append('\n');
        synchronized (XkcpOverrides.class) {
            if (out == null) {
                out = new BufferedWriter(new FileWriter(System.getProperty("xkcp.emit", "/dev/null")), 1 << 20);
                Runtime.getRuntime().addShutdownHook(new Thread(() -> {
                    try { out.close(); } catch (IOException e) { }
                }));
            }
            out.write(sb.toString());
        }
        return BoolValue.ValTrue;
    }
}
