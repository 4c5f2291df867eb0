import java.io.BufferedReader;
import java.io.FileDescriptor;
import java.io.FileOutputStream;
import java.io.FileReader;
import java.io.IOException;
import java.io.InputStreamReader;
import java.io.PrintStream;
import java.lang.reflect.*;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.util.*;
import zserio.runtime.ZserioError;
import zserio.runtime.io.*;

/** Driver for generated Java code (by reflection): reads commands from stdin, writes one result line per command. */
public class Drv
{
    static class Field { String name, flags, kind, sub; Method get, set, used, present; Class<?> type; }
    static class Type
    {
        String name, kind;
        List<String[]> params = new ArrayList<>();
        Map<String, Field> fields = new LinkedHashMap<>();
        List<String[]> funcs = new ArrayList<>();
        Class<?> cls;
        Constructor<?> ctor, rctor;
        volatile boolean loaded;
        void load() throws Exception
        {
            if (loaded) return;
            synchronized (this)
            {
                if (loaded) return;
                load0();
                loaded = true;
            }
        }
        void load0() throws Exception
        {
            cls = Class.forName(name);
            for (Constructor<?> c : cls.getDeclaredConstructors())
            {
                Class<?>[] p = c.getParameterTypes();
                if (p.length == params.size() + 1 && p[0] == BitStreamReader.class) rctor = c;
            }
            // the constructor with just the parameters (a one with all fields may have the same size)
            if (rctor != null)
            {
                Class<?>[] p = rctor.getParameterTypes();
                try { ctor = cls.getDeclaredConstructor(Arrays.copyOfRange(p, 1, p.length)); }
                catch (NoSuchMethodException e) { }
            }
            for (Field f : fields.values())
            {
                String c = Character.toUpperCase(f.name.charAt(0)) + f.name.substring(1);
                f.get = cls.getMethod("get" + c);
                f.type = f.get.getReturnType();
                if (!READONLY) f.set = cls.getMethod("set" + c, f.type);
                if (f.flags.contains("o")) f.used = cls.getMethod("is" + c + "Used");
                if (f.flags.contains("x")) f.present = cls.getMethod("is" + c + "Present");
            }
        }
    }

    static final Map<String, Type> types = new HashMap<>();

    static Type type(String n) throws Exception
    {
        Type t = types.get(n);
        if (t == null) throw new IllegalStateException("no type " + n);
        t.load();
        return t;
    }

    static class NA extends Exception { NA(String s) { super(s); } }

    static String hex(byte[] b, int n)
    {
        StringBuilder s = new StringBuilder();
        for (int i = 0; i < n; i++) { s.append(Character.forDigit((b[i] >> 4) & 15, 16)); s.append(Character.forDigit(b[i] & 15, 16)); }
        return s.toString();
    }

    static byte[] unhex(String s)
    {
        byte[] b = new byte[s.length() / 2];
        for (int i = 0; i < b.length; i++) b[i] = (byte)Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
        return b;
    }

    // ---- output

    static Object call(Object o, String m) throws Exception
    {
        try { return o.getClass().getMethod(m).invoke(o); }
        catch (InvocationTargetException e) { throw (Exception)e.getCause(); }
    }

    static String tok(String k, Object v) throws Exception
    {
        if (v == null) return "n";
        switch (k)
        {
        case "i": return "i" + v;
        case "b": return (Boolean)v ? "b1" : "b0";
        case "s": return "s" + hex(((String)v).getBytes(StandardCharsets.UTF_8), ((String)v).getBytes(StandardCharsets.UTF_8).length);
        case "y": return "y" + hex((byte[])v, ((byte[])v).length);
        case "x":
        {
            BitBuffer b = (BitBuffer)v;
            int n = (int)b.getBitSize();
            byte[] d = Arrays.copyOf(b.getBuffer(), (n + 7) / 8);
            if (n % 8 != 0) d[d.length - 1] &= (byte)(0xff00 >> (n % 8));
            return "x" + n + ":" + hex(d, d.length);
        }
        case "d":
        {
            double d = ((Number)v).doubleValue();
            if (d != d) return "dnan";
            return "d" + String.format("%016x", Double.doubleToRawLongBits(d));
        }
        case "e":
        case "m": return k + call(v, k.equals("e") ? "getGenericValue" : "getValue");
        default: throw new IllegalStateException(k);
        }
    }

    static Object invoke(Method m, Object o, Object... a) throws Exception
    {
        try { return m.invoke(o, a); }
        catch (InvocationTargetException e)
        {
            if (e.getCause() instanceof Exception) throw (Exception)e.getCause();
            throw (Error)e.getCause();
        }
    }

    static void dump(Type t, Object o, StringBuilder s) throws Exception
    {
        t.load();
        s.append("{ ").append(t.name);
        Collection<Field> fs = t.fields.values();
        if (!t.kind.equals("struct"))
        {
            int tag = (Integer)call(o, "choiceTag");
            fs = tag < 0 ? new ArrayList<>() : Arrays.asList(new ArrayList<>(t.fields.values()).get(tag));
        }
        for (Field f : fs)
        {
            if (f.present != null && !(Boolean)invoke(f.present, o)) break;
            s.append(' ').append(f.name).append(' ');
            if (f.used != null && !(Boolean)invoke(f.used, o)) { s.append("n"); continue; }
            Object v = invoke(f.get, o);
            if (v == null) s.append("n");
            else if (f.flags.contains("a"))
            {
                s.append("[");
                int n = Array.getLength(v);
                for (int i = 0; i < n; i++) { s.append(' '); elem(f, Array.get(v, i), s); }
                s.append(" ]");
            }
            else elem(f, v, s);
        }
        s.append(" }");
    }

    static void elem(Field f, Object v, StringBuilder s) throws Exception
    {
        if (f.kind.equals("c") && v != null) dump(type(f.sub), v, s); else s.append(tok(f.kind, v));
    }

    // ---- input

    static class Build
    {
        final String[] t;
        int i;
        final List<Object> objs = new ArrayList<>();
        final Map<String, Object> masks = new HashMap<>();
        Build(String s) { t = s.split(" "); }
        String next() { return t[i++]; }

        static Object num(String s, Class<?> c) throws NA
        {
            BigInteger b = new BigInteger(s);
            try
            {
                if (c == byte.class || c == Byte.class) return b.byteValueExact();
                if (c == short.class || c == Short.class) return b.shortValueExact();
                if (c == int.class || c == Integer.class) return b.intValueExact();
                if (c == long.class || c == Long.class) return b.longValueExact();
            }
            catch (ArithmeticException e) { throw new NA("range"); }
            return b;
        }

        Object simple(String k, Class<?> c) throws Exception
        {
            String r = k.substring(1);
            switch (k.charAt(0))
            {
            case 'i': return num(r, c);
            case 'b': return r.equals("1");
            case 'd':
            {
                double d = r.equals("nan") ? Double.NaN : Double.longBitsToDouble(Long.parseUnsignedLong(r, 16));
                if (c == float.class || c == Float.class) return (float)d;
                return d;
            }
            case 's': return new String(unhex(r), StandardCharsets.UTF_8);
            case 'y': return unhex(r);
            case 'x':
            {
                String[] p = r.split(":", -1);
                return new BitBuffer(unhex(p[1]), Long.parseLong(p[0]));
            }
            case 'e':
            {
                Method m = null;
                for (Method x : c.getMethods()) if (x.getName().equals("toEnum") && x.getParameterTypes()[0] != String.class) m = x;
                try { return invoke(m, null, num(r, m.getParameterTypes()[0])); }
                catch (IllegalArgumentException e) { throw new NA("enum"); }
            }
            case 'm':
            {
                // parameters are compared by identity, so equal masks of one tree are one object
                String key = c.getName() + k;
                if (masks.containsKey(key)) return masks.get(key);
                Object o = mask(c, r);
                masks.put(key, o);
                return o;
            }
            case 'n': return null;
            case 'r': return objs.get(Integer.parseInt(r));
            default: throw new IllegalStateException(k);
            }
        }

        static Object mask(Class<?> c, String r) throws Exception
        {
            for (Class<?> v : c.getClasses())
                if (v.getSimpleName().equals("Values"))
                    for (java.lang.reflect.Field f : v.getFields())
                        if (f.getType() == c && tok("m", f.get(null)).equals("m" + r)) return f.get(null);
                for (Constructor<?> x : c.getConstructors())
                    if (x.getParameterTypes().length == 1 && x.getParameterTypes()[0] != BitStreamReader.class)
                    {
                        try { return x.newInstance(num(r, x.getParameterTypes()[0])); }
                        catch (InvocationTargetException e) { throw new NA("bitmask"); }
                    }
                throw new IllegalStateException();
        }

        Object compound() throws Exception
        {
            Type ty = type(next());
            if (!next().equals("(")) throw new IllegalStateException("( expected");
            if (ty.ctor == null) throw new NA("no constructor");
            List<Object> args = new ArrayList<>();
            for (String k = next(); !k.equals(")"); k = next()) args.add(simple(k, ty.ctor.getParameterTypes()[args.size()]));
            Object o;
            try { o = ty.ctor.newInstance(args.toArray()); }
            catch (InvocationTargetException e) { throw (Exception)e.getCause(); }
            objs.add(o);
            for (String n = next(); !n.equals("}"); n = next())
            {
                Field f = ty.fields.get(n);
                String k = next();
                Object v;
                if (k.equals("["))
                {
                    Class<?> ec = f.type.getComponentType();
                    List<Object> l = new ArrayList<>();
                    for (k = next(); !k.equals("]"); k = next()) l.add(k.equals("{") ? compound() : simple(k, ec));
                    v = Array.newInstance(ec, l.size());
                    for (int j = 0; j < l.size(); j++) Array.set(v, j, l.get(j));
                }
                else v = k.equals("{") ? compound() : simple(k, f.type);
                if (v == null && ((f.flags.contains("x") && !f.flags.contains("o")) || f.type.isPrimitive())) continue;
                invoke(f.set, o, v);
            }
            return o;
        }
    }

    static Object read(Type t, BitStreamReader in) throws Exception
    {
        t.load();
        try { return t.rctor.newInstance(in); }
        catch (InvocationTargetException e)
        {
            if (e.getCause() instanceof Exception) throw (Exception)e.getCause();
            throw (Error)e.getCause();
        }
    }

    static String bits(ByteArrayBitStreamWriter w, long pos) throws Exception
    {
        long end = w.getBitPosition();
        byte[] d = w.toByteArray();
        int n = (int)(end - pos);
        byte[] o = new byte[(n + 7) / 8];
        for (int i = 0; i < n; i++)
        {
            int p = (int)pos + i;
            if (((d[p / 8] >> (7 - p % 8)) & 1) != 0) o[i / 8] |= (byte)(1 << (7 - i % 8));
        }
        return n + ":" + hex(o, o.length);
    }

    static String text(Type t, Object o) throws Exception { StringBuilder s = new StringBuilder(); dump(t, o, s); return s.toString(); }

    static final boolean READONLY = System.getenv("DRV_READONLY") != null;

    static String dec(String[] a) throws Exception
    {
        Type t = type(a[1]);
        long n = Long.parseLong(a[2]);
        byte[] b = unhex(a[3]);
        ByteArrayBitStreamReader in = new ByteArrayBitStreamReader(b, n);
        Object o = read(t, in);
        StringBuilder r = new StringBuilder(in.getBitPosition() + "|");
        for (long p : new long[] {0, 1, 3, 8, 61})
            r.append(((zserio.runtime.SizeOf)o).bitSizeOf(p)).append(p == 61 ? "|" : ",");
        try
        {
            ByteArrayBitStreamWriter w = new ByteArrayBitStreamWriter();
            if (READONLY)
                r.append("-|");
            else
            {
                ((Writer)o).write(w);
                r.append(bits(w, 0)).append("|");
            }
        }
        catch (ZserioError e) { r.append("!" + e.getClass().getSimpleName() + "|"); }
        Object o2 = read(t, new ByteArrayBitStreamReader(b, n));
        r.append("eq").append(o.equals(o2) ? 1 : 0).append(o.hashCode() == o2.hashCode() ? 1 : 0).append(o.equals(o) ? 1 : 0);
        return r.append("|").append(text(t, o)).toString();
    }

    static String bld(String[] a) throws Exception
    {
        Type t = type(a[1]);
        long pos = Long.parseLong(a[2]);
        Build b = new Build(a[3]);
        b.next();
        Object o = b.compound();
        long end = ((Writer)o).initializeOffsets(pos);
        long size = ((zserio.runtime.SizeOf)o).bitSizeOf(pos);
        ByteArrayBitStreamWriter w = new ByteArrayBitStreamWriter();
        for (long p = pos; p > 0; p--) w.writeBits(0, 1);
        ((Writer)o).write(w);
        String r = end + "|" + size + "|" + bits(w, pos) + "|";
        ByteArrayBitStreamReader in = new ByteArrayBitStreamReader(w.toByteArray(), w.getBitPosition());
        in.setBitPosition(pos);
        Object o2 = read(t, in);
        r += "eq" + (o.equals(o2) ? 1 : 0) + (o.hashCode() == o2.hashCode() ? 1 : 0) + (o2.equals(o) ? 1 : 0);
        return r + "|" + text(t, o2);
    }

    static String raw(String[] a) throws Exception
    {
        long pos = Long.parseLong(a[2]);
        Build b = new Build(a[3]);
        b.next();
        Object o = b.compound();
        ByteArrayBitStreamWriter w = new ByteArrayBitStreamWriter();
        for (long p = pos; p > 0; p--) w.writeBits(0, 1);
        ((Writer)o).write(w);
        return bits(w, pos);
    }

    static String fun(String[] a) throws Exception
    {
        Type t = type(a[1]);
        Object o = read(t, new ByteArrayBitStreamReader(unhex(a[3]), Long.parseLong(a[2])));
        StringBuilder s = new StringBuilder();
        for (String[] f : t.funcs)
        {
            if (s.length() > 0) s.append(" ");
            s.append(f[0]).append("=").append(tok(f[1], call(o, "func" + Character.toUpperCase(f[0].charAt(0)) + f[0].substring(1))));
        }
        return s.toString();
    }

    /** A dump, or "D<bits>:<hex>" of a stream. */
    static Object object(Type t, String a) throws Exception
    {
        if (a.startsWith("D"))
        {
            int c = a.indexOf(':');
            return read(t, new ByteArrayBitStreamReader(unhex(a.substring(c + 1)), Long.parseLong(a.substring(1, c))));
        }
        Build b = new Build(a);
        b.next();
        Object o = b.compound();
        ((Writer)o).initializeOffsets(0);
        return o;
    }

    static String cmp(String[] a) throws Exception
    {
        Type t = type(a[1]);
        List<Object> os = new ArrayList<>();
        for (int i = 2; i < a.length; i++)
        {
            os.add(object(t, a[i]));
        }
        StringBuilder eq = new StringBuilder(), hs = new StringBuilder();
        for (Object x : os)
            for (Object y : os)
            {
                eq.append(x.equals(y) ? '1' : '0');
                hs.append(x.hashCode() == y.hashCode() ? '1' : '0');
            }
        return eq + "|" + hs + "|-";
    }

    static String jw(String[] a) throws Exception
    {
        Object o = object(type(a[1]), a[2]);
        if (a.length > 4 && a[4].equals("N"))
        {
            java.io.StringWriter sw = new java.io.StringWriter();
            zserio.runtime.json.JsonWriter jw = new zserio.runtime.json.JsonWriter(sw);
            jw.setEnumerableFormat(zserio.runtime.json.JsonWriter.EnumerableFormat.NUMBER);
            new zserio.runtime.walker.Walker(jw).walk(o);
            byte[] d = sw.toString().getBytes(StandardCharsets.UTF_8);
            return hex(d, d.length);
        }
        String s = a.length > 3 && !a[3].equals("-") ? zserio.runtime.DebugStringUtil.toJsonString(o, Integer.parseInt(a[3]))
                : zserio.runtime.DebugStringUtil.toJsonString(o);
        byte[] d = s.getBytes(StandardCharsets.UTF_8);
        return hex(d, d.length);
    }

    static String jr(String[] a) throws Exception
    {
        Type t = type(a[1]);
        Object o = zserio.runtime.DebugStringUtil.fromJsonString(t.cls, new String(unhex(a[2]), StandardCharsets.UTF_8));
        ByteArrayBitStreamWriter w = new ByteArrayBitStreamWriter();
        ((Writer)o).initializeOffsets(0);
        ((Writer)o).write(w);
        return bits(w, 0) + "|" + text(t, o);
    }

    static String one(String[] a)
    {
        try
        {
            switch (a[0])
            {
            case "DEC": return "OK|" + dec(a);
            case "BLD": return "OK|" + bld(a);
            case "RAW": return "OK|" + raw(a);
            case "FUN": return "OK|" + fun(a);
            case "MT": return concurrently(a);
            case "SH": return "OK|" + shared(a);
            case "CMP": return "OK|" + cmp(a);
            case "JW": return "OK|" + jw(a);
            case "JR": return "OK|" + jr(a);
            default: return "OK|" + Extra.run(a);
            }
        }
        catch (NA e) { return "NA|" + e.getMessage(); }
        catch (OutOfMemoryError e) { return "ERR|OutOfMemoryError|0|"; }
        catch (StackOverflowError e) { return "ERR|StackOverflowError|0|"; }
        catch (Throwable e)
        {
            boolean known = e instanceof ZserioError || e instanceof IOException;
            StackTraceElement[] st = e.getStackTrace();
            String at = st.length > 0 ? " at " + st[0] : "";
            return "ERR|" + e.getClass().getSimpleName() + "|" + (known ? 1 : 0) + "|" +
                (String.valueOf(e.getMessage()) + at).replace('\n', ' ').replace('|', '/').replace('\r', ' ');
        }
    }

    // MT <threads> <rounds> <commands>: all threads run all commands, each in its own order; different results are told
    static String concurrently(String[] a) throws Exception
    {
        int n = Integer.parseInt(a[1]), rounds = Integer.parseInt(a[2]);
        String[] cs = a[3].split("\u001f");
        String[][] cmds = new String[cs.length][];
        for (int i = 0; i < cs.length; i++) cmds[i] = cs[i].split("\u001e", -1);
        String[][] first = new String[n][cs.length];
        String[] bad = new String[n];
        java.util.concurrent.CyclicBarrier start = new java.util.concurrent.CyclicBarrier(n);
        Thread[] ts = new Thread[n];
        for (int t = 0; t < n; t++)
        {
            final int i = t;
            ts[t] = new Thread(() ->
            {
                try
                {
                    start.await();
                    for (int r = 0; r < rounds; r++)
                        for (int k = 0; k < cmds.length; k++)
                        {
                            int c = r == 0 && i % 2 == 0 ? k : (k * (2 * i + 1) + r + i) % cmds.length;
                            String x = one(cmds[c]);
                            if (first[i][c] == null) first[i][c] = x;
                            else if (!first[i][c].equals(x)) bad[i] = "thread changed its mind: " + first[i][c] + " <> " + x;
                        }
                    for (int k = 0; k < cmds.length; k++) if (first[i][k] == null) first[i][k] = one(cmds[k]);
                }
                catch (Throwable e) { bad[i] = e.toString(); }
            });
            ts[t].start();
        }
        for (Thread t : ts) t.join();
        for (int k = 0; k < cmds.length; k++)
            for (int i = 0; i < n; i++)
            {
                if (bad[i] != null) return "BAD|" + bad[i];
                if (!first[i][k].equals(first[0][k])) return "BAD|threads disagree: " + first[0][k] + " <> " + first[i][k];
            }
        return "OK|" + String.join("\u001f", first[0]);
    }

    // one object which several threads only look at
    static String shared(String[] a) throws Exception
    {
        Type t = type(a[1]);
        int n = Integer.parseInt(a[2]), rounds = Integer.parseInt(a[3]);
        Object o = object(t, a[4]), o2 = object(t, a[4]);
        String[] res = new String[n];
        java.util.concurrent.CyclicBarrier start = new java.util.concurrent.CyclicBarrier(n);
        Thread[] ts = new Thread[n];
        for (int q = 0; q < n; q++)
        {
            final int i = q;
            ts[q] = new Thread(() ->
            {
                try
                {
                    start.await();
                    for (int r = 0; r < rounds; r++)
                    {
                        String[] x = new String[5];
                        for (int k = 0; k < 5; k++)
                            switch ((k + i + r) % 5)
                            {
                            case 0:
                                ((zserio.runtime.SizeOf)o).bitSizeOf(r % 2 == 0 ? 3 : 1);
                                x[0] = "" + ((zserio.runtime.SizeOf)o).bitSizeOf(0);
                                break;
                            case 1: x[1] = o.equals(o2) && o2.equals(o) && o.hashCode() == o2.hashCode() ? "eq1" : "eq0"; break;
                            case 2: x[2] = text(t, o); break;
                            case 3:
                            {
                                ByteArrayBitStreamWriter w = new ByteArrayBitStreamWriter();
                                ((Writer)o).write(w);
                                x[3] = bits(w, 0);
                                break;
                            }
                            default:
                            {
                                java.io.StringWriter sw = new java.io.StringWriter();
                                zserio.runtime.DebugStringUtil.toJsonStream(o, sw);
                                x[4] = "" + sw.toString().hashCode();
                            }
                            }
                        String s = x[0] + "|" + x[3] + "|" + x[1] + "|" + x[4] + "|" + x[2];
                        if (res[i] == null) res[i] = s;
                        else if (!res[i].equals(s)) res[i] = "changed: " + res[i] + " <> " + s;
                    }
                }
                catch (Throwable e) { res[i] = "failed: " + e; }
            });
            ts[q].start();
        }
        for (Thread x : ts) x.join();
        for (int i = 1; i < n; i++)
            if (!res[i].equals(res[0])) return "threads disagree: " + res[0] + " <> " + res[i];
        return res[0];
    }

    static void loadDesc(String file) throws Exception
    {
        Type cur = null;
        BufferedReader r = new BufferedReader(new FileReader(file));
        for (String line; (line = r.readLine()) != null; )
        {
            String[] p = line.trim().split(" ");
            if (p[0].equals("C")) { cur = new Type(); cur.name = p[1]; cur.kind = p[2]; types.put(p[1], cur); }
            else if (p[0].equals("P")) cur.params.add(new String[] {p[1], p[2], p[3]});
            else if (p[0].equals("F"))
            {
                Field f = new Field();
                f.name = p[1]; f.flags = p[2]; f.kind = p[3]; f.sub = p[4];
                cur.fields.put(f.name, f);
            }
            else if (p[0].equals("U")) cur.funcs.add(new String[] {p[1], p[2], p[3]});
        }
        r.close();
    }

    static void work(BufferedReader in, PrintStream out) throws IOException
    {
        for (String line; (line = in.readLine()) != null; ) { out.println(one(line.split("\t", -1))); out.flush(); }
    }

    public static void main(String[] args) throws Exception
    {
        loadDesc(args[0]);
        final BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.US_ASCII), 1 << 16);
        final PrintStream out = new PrintStream(new FileOutputStream(FileDescriptor.out), false, "US-ASCII");
        final Throwable[] err = new Throwable[1];
        Thread t = new Thread(null, () -> { try { work(in, out); } catch (Throwable e) { err[0] = e; } }, "work", 256L << 20);
        t.start();
        t.join();
        if (err[0] != null) { err[0].printStackTrace(); System.exit(3); }
    }
}
