import tlc2.value.impl.*;
import java.security.MessageDigest;
import javax.crypto.Cipher;
import javax.crypto.spec.SecretKeySpec;

/** TLC evaluation of the operators of module CryptoFast. */
public class CryptoFast {
    static byte[] b(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        byte[] r = new byte[t.elems.length];
        for (int i = 0; i < r.length; i++) r[i] = (byte) ((IntValue) t.elems[i]).val;
        return r;
    }
    static final IntValue[] IV = new IntValue[256];
    static { for (int i = 0; i < 256; i++) IV[i] = IntValue.gen(i); }
    static Value v(byte[] a) {
        Value[] e = new Value[a.length];
        for (int i = 0; i < a.length; i++) e[i] = IV[a[i] & 255];
        return new TupleValue(e);
    }
    static int n(Value v) { return ((IntValue) v).val; }

    static byte[] sha(byte[]... ms) {
        try {
            MessageDigest d = MessageDigest.getInstance("SHA-256");
            for (byte[] m : ms) d.update(m);
            return d.digest();
        } catch (Exception e) { throw new RuntimeException(e); }
    }
    static byte[] hmac(byte[] k, byte[]... ms) {
        if (k.length > 64) k = sha(k);
        byte[] i = new byte[64], o = new byte[64];
        for (int j = 0; j < 64; j++) {
            byte x = j < k.length ? k[j] : 0;
            i[j] = (byte) (x ^ 0x36); o[j] = (byte) (x ^ 0x5c);
        }
        byte[][] a = new byte[ms.length + 1][];
        a[0] = i;
        System.arraycopy(ms, 0, a, 1, ms.length);
        return sha(o, sha(a));
    }
    static byte[] pbkdf2(byte[] P, byte[] S, int c, int n) {
        byte[] r = new byte[n];
        for (int i = 0; i * 32 < n; i++) {
            int k = i + 1;
            byte[] U = hmac(P, S, new byte[]{(byte) (k >> 24), (byte) (k >> 16), (byte) (k >> 8), (byte) k});
            byte[] T = U.clone();
            for (int j = 1; j < c; j++) { U = hmac(P, U); for (int q = 0; q < 32; q++) T[q] ^= U[q]; }
            System.arraycopy(T, 0, r, i * 32, Math.min(32, n - i * 32));
        }
        return r;
    }
    static void salsa(int[] B) {
        int x0=B[0],x1=B[1],x2=B[2],x3=B[3],x4=B[4],x5=B[5],x6=B[6],x7=B[7],x8=B[8],x9=B[9],x10=B[10],x11=B[11],x12=B[12],x13=B[13],x14=B[14],x15=B[15];
        for (int i = 0; i < 4; i++) {
            x4 ^= Integer.rotateLeft(x0 + x12, 7);
            x8 ^= Integer.rotateLeft(x4 + x0, 9);
            x12 ^= Integer.rotateLeft(x8 + x4, 13);
            x0 ^= Integer.rotateLeft(x12 + x8, 18);
            x9 ^= Integer.rotateLeft(x5 + x1, 7);
            x13 ^= Integer.rotateLeft(x9 + x5, 9);
            x1 ^= Integer.rotateLeft(x13 + x9, 13);
            x5 ^= Integer.rotateLeft(x1 + x13, 18);
            x14 ^= Integer.rotateLeft(x10 + x6, 7);
            x2 ^= Integer.rotateLeft(x14 + x10, 9);
            x6 ^= Integer.rotateLeft(x2 + x14, 13);
            x10 ^= Integer.rotateLeft(x6 + x2, 18);
            x3 ^= Integer.rotateLeft(x15 + x11, 7);
            x7 ^= Integer.rotateLeft(x3 + x15, 9);
            x11 ^= Integer.rotateLeft(x7 + x3, 13);
            x15 ^= Integer.rotateLeft(x11 + x7, 18);
            x1 ^= Integer.rotateLeft(x0 + x3, 7);
            x2 ^= Integer.rotateLeft(x1 + x0, 9);
            x3 ^= Integer.rotateLeft(x2 + x1, 13);
            x0 ^= Integer.rotateLeft(x3 + x2, 18);
            x6 ^= Integer.rotateLeft(x5 + x4, 7);
            x7 ^= Integer.rotateLeft(x6 + x5, 9);
            x4 ^= Integer.rotateLeft(x7 + x6, 13);
            x5 ^= Integer.rotateLeft(x4 + x7, 18);
            x11 ^= Integer.rotateLeft(x10 + x9, 7);
            x8 ^= Integer.rotateLeft(x11 + x10, 9);
            x9 ^= Integer.rotateLeft(x8 + x11, 13);
            x10 ^= Integer.rotateLeft(x9 + x8, 18);
            x12 ^= Integer.rotateLeft(x15 + x14, 7);
            x13 ^= Integer.rotateLeft(x12 + x15, 9);
            x14 ^= Integer.rotateLeft(x13 + x12, 13);
            x15 ^= Integer.rotateLeft(x14 + x13, 18);
        }
        B[0] += x0;
        B[1] += x1;
        B[2] += x2;
        B[3] += x3;
        B[4] += x4;
        B[5] += x5;
        B[6] += x6;
        B[7] += x7;
        B[8] += x8;
        B[9] += x9;
        B[10] += x10;
        B[11] += x11;
        B[12] += x12;
        B[13] += x13;
        B[14] += x14;
        B[15] += x15;
    }
    static int[] le(byte[] a, int o, int n) {
        int[] r = new int[n];
        for (int i = 0; i < n; i++)
            r[i] = (a[o + 4 * i] & 255) | (a[o + 4 * i + 1] & 255) << 8 | (a[o + 4 * i + 2] & 255) << 16 | (a[o + 4 * i + 3] & 255) << 24;
        return r;
    }
    static void unle(int[] w, byte[] a, int o) {
        for (int i = 0; i < w.length; i++)
            for (int j = 0; j < 4; j++) a[o + 4 * i + j] = (byte) (w[i] >> (8 * j));
    }
    static void blockmix(int[] B, int[] Y, int r) {
        int[] X = new int[16];
        System.arraycopy(B, 32 * r - 16, X, 0, 16);
        for (int i = 0; i < 2 * r; i++) {
            for (int j = 0; j < 16; j++) X[j] ^= B[16 * i + j];
            salsa(X);
            System.arraycopy(X, 0, Y, 16 * (i % 2 == 0 ? i / 2 : r + i / 2), 16);
        }
    }
    static byte[] scrypt(byte[] P, byte[] S, int N, int r, int p, int n) {
        return pbkdf2(P, mix(pbkdf2(P, S, 1, p * 128 * r), N, r, p), 1, n);
    }
    static byte[] mix(byte[] B, int N, int r, int p) {
        int w = 32 * r, per = Math.max(1, (1 << 24) / w);
        int[][] V = new int[(N + per - 1) / per][];
        for (int i = 0; i < V.length; i++) V[i] = new int[Math.min(per, N - i * per) * w];
        for (int k = 0; k < p; k++) {
            int[] X = le(B, k * 128 * r, w), Y = new int[w], t;
            for (int i = 0; i < N; i++) {
                System.arraycopy(X, 0, V[i / per], i % per * w, w);
                blockmix(X, Y, r);
                t = X; X = Y; Y = t;
            }
            for (int i = 0; i < N; i++) {
                int j = X[w - 16] & (N - 1), o = j % per * w;
                int[] C = V[j / per];
                for (int q = 0; q < w; q++) X[q] ^= C[o + q];
                blockmix(X, Y, r);
                t = X; X = Y; Y = t;
            }
            unle(X, B, k * 128 * r);
        }
        return B;
    }
    static byte[] aesctr(byte[] k, byte[] nonce, byte[] blk, int off, byte[] d) {
        try {
            Cipher c = Cipher.getInstance("AES/ECB/NoPadding");
            c.init(Cipher.ENCRYPT_MODE, new SecretKeySpec(k, "AES"));
            int nb = (off + d.length + 15) / 16;
            byte[] in = new byte[16 * nb];
            byte[] ctr = blk.clone();
            for (int i = 0; i < nb; i++) {
                System.arraycopy(nonce, 0, in, 16 * i, 8);
                System.arraycopy(ctr, 0, in, 16 * i + 8, 8);
                for (int j = 7; j >= 0; j--) if (++ctr[j] != 0) break;
            }
            byte[] ks = nb == 0 ? new byte[0] : c.doFinal(in);
            byte[] r = new byte[d.length];
            for (int i = 0; i < d.length; i++) r[i] = (byte) (d[i] ^ ks[off + i]);
            return r;
        } catch (Exception e) { throw new RuntimeException(e); }
    }

    public static Value FSha256(Value m) { return v(sha(b(m))); }
    public static Value FSha256Rep(Value blk, Value nh, Value nl, Value m) {
        try {
            byte[] x = b(blk), big = new byte[64 << 14];
            for (int i = 0; i < big.length; i += 64) System.arraycopy(x, 0, big, i, 64);
            MessageDigest d = MessageDigest.getInstance("SHA-256");
            long n = ((long) n(nh) << 20) + n(nl);
            for (; n >= 1 << 14; n -= 1 << 14) d.update(big);
            d.update(big, 0, (int) n * 64);
            d.update(b(m));
            return v(d.digest());
        } catch (Exception e) { throw new RuntimeException(e); }
    }
    public static Value FPbkdf2Tail(Value P, Value S, Value c, Value len, Value k) {
        byte[] o = pbkdf2(b(P), b(S), n(c), n(len));
        return v(java.util.Arrays.copyOfRange(o, o.length - n(k), o.length));
    }
    public static Value FHmac(Value k, Value m) { return v(hmac(b(k), b(m))); }
    public static Value FPbkdf2(Value P, Value S, Value c, Value len) { return v(pbkdf2(b(P), b(S), n(c), n(len))); }
    /* results are remembered: traces use the same key again and again */
    static final java.util.concurrent.ConcurrentHashMap<String, byte[]> memo = new java.util.concurrent.ConcurrentHashMap<>();
    public static Value FScrypt(Value P, Value S, Value N, Value r, Value p, Value len) {
        String k = java.util.Arrays.toString(b(P)) + java.util.Arrays.toString(b(S)) + n(N) + "," + n(r) + "," + n(p) + "," + n(len);
        byte[] o = memo.get(k);
        if (o == null) {
            o = scrypt(b(P), b(S), n(N), n(r), n(p), n(len));
            if (o.length <= 128)
                memo.put(k, o);
        }
        return v(o);
    }
    public static Value FAesBlock(Value k, Value blk) {
        byte[] x = b(blk);
        byte[] no = java.util.Arrays.copyOfRange(x, 0, 8), bk = java.util.Arrays.copyOfRange(x, 8, 16);
        return v(aesctr(b(k), no, bk, 0, new byte[16]));
    }
    public static Value FAesCtr(Value k, Value nonce, Value blkno, Value off, Value data) {
        return v(aesctr(b(k), b(nonce), b(blkno), n(off), b(data)));
    }
    public static Value FSalsa8(Value blk) {
        int[] w = le(b(blk), 0, 16);
        salsa(w);
        byte[] r = new byte[64];
        unle(w, r, 0);
        return v(r);
    }
    public static Value FXor(Value x, Value y) {
        byte[] p = b(x), q = b(y);
        for (int i = 0; i < p.length; i++) p[i] ^= q[i];
        return v(p);
    }
    public static Value FSealZeros(Value dkv, Value head, Value m, Value n) {
        try {
            byte[] dk = b(dkv), h = b(head);
            byte[] k = java.util.Arrays.copyOfRange(dk, 32, dk.length);
            if (k.length > 64) k = sha(k);
            byte[] ik = new byte[64], ok = new byte[64];
            for (int j = 0; j < 64; j++) {
                byte x = j < k.length ? k[j] : 0;
                ik[j] = (byte) (x ^ 0x36); ok[j] = (byte) (x ^ 0x5c);
            }
            MessageDigest all = MessageDigest.getInstance("SHA-256"), inner = MessageDigest.getInstance("SHA-256");
            inner.update(ik);
            all.update(h); inner.update(h);
            Cipher c = Cipher.getInstance("AES/CTR/NoPadding");
            c.init(Cipher.ENCRYPT_MODE, new SecretKeySpec(dk, 0, 32, "AES"), new javax.crypto.spec.IvParameterSpec(new byte[16]));
            byte[] z = new byte[1 << 16], e = new byte[1 << 16];
            long left = ((long) n(m) << 20) + n(n);
            while (left > 0) {
                int q = (int) Math.min(left, z.length);
                int got = c.update(z, 0, q, e);
                if (got != q) throw new RuntimeException("stream");
                all.update(e, 0, q); inner.update(e, 0, q);
                left -= q;
            }
            byte[] s = sha(ok, inner.digest());
            all.update(s);
            return new TupleValue(new Value[]{v(all.digest()), v(s)});
        } catch (Exception e) { throw new RuntimeException(e); }
    }
    public static Value FShaZeros(Value m, Value n) {
        try {
            MessageDigest d = MessageDigest.getInstance("SHA-256");
            byte[] z = new byte[1 << 16];
            for (long left = ((long) n(m) << 20) + n(n); left > 0; left -= z.length)
                d.update(z, 0, (int) Math.min(left, z.length));
            return v(d.digest());
        } catch (Exception e) { throw new RuntimeException(e); }
    }
    public static Value FMixAll(Value B, Value N, Value r, Value p) { return v(mix(b(B), n(N), n(r), n(p))); }
    public static Value FPbkSaltZ(Value P, Value m, Value n, Value t, Value len) {
        try {
            byte[] k = b(P);
            if (k.length > 64) k = sha(k);
            byte[] ik = new byte[64], ok = new byte[64], z = new byte[1 << 16];
            for (int j = 0; j < 64; j++) {
                byte x = j < k.length ? k[j] : 0;
                ik[j] = (byte) (x ^ 0x36); ok[j] = (byte) (x ^ 0x5c);
            }
            MessageDigest d = MessageDigest.getInstance("SHA-256");
            d.update(ik);
            for (long left = ((long) n(m) << 20) + n(n); left > 0; left -= z.length)
                d.update(z, 0, (int) Math.min(left, z.length));
            d.update(b(t));
            byte[] o = new byte[n(len)];
            for (int i = 0; i * 32 < o.length; i++) {
                MessageDigest e = (MessageDigest) d.clone();
                int q = i + 1;
                e.update(new byte[]{(byte) (q >> 24), (byte) (q >> 16), (byte) (q >> 8), (byte) q});
                System.arraycopy(sha(ok, e.digest()), 0, o, i * 32, Math.min(32, o.length - i * 32));
            }
            return v(o);
        } catch (Exception e) { throw new RuntimeException(e); }
    }
}
