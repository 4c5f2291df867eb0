import java.lang.reflect.*;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.util.*;
import zserio.runtime.ZserioError;
import zserio.runtime.creator.ZserioTreeCreator;
import zserio.runtime.io.*;
import zserio.runtime.typeinfo.*;
import zserio.runtime.walker.*;

/** Walker, walk filters and tree creator of the Java runtime. */
public class Extra
{
    static String tok(Object v) throws Exception
    {
        if (v == null) return "n";
        if (v instanceof Boolean) return (Boolean)v ? "b1" : "b0";
        if (v instanceof Float || v instanceof Double) return Drv.tok("d", v);
        if (v instanceof Number) return "i" + v;
        if (v instanceof String) return Drv.tok("s", v);
        if (v instanceof byte[]) return Drv.tok("y", v);
        if (v instanceof BitBuffer) return Drv.tok("x", v);
        if (v instanceof zserio.runtime.ZserioEnum) return "e" + ((zserio.runtime.ZserioEnum)v).getGenericValue();
        if (v instanceof zserio.runtime.ZserioBitmask) return "m" + ((zserio.runtime.ZserioBitmask)v).getGenericValue();
        return "o";
    }

    static String idx(int i) { return i == WalkerConst.NOT_ELEMENT ? "-" : "" + i; }

    static String name(Object o)
    {
        try { return ((TypeInfo)o.getClass().getMethod("typeInfo").invoke(null)).getSchemaName(); }
        catch (ReflectiveOperationException e) { throw new IllegalStateException(e); }
    }

    static class Observer implements WalkObserver
    {
        final List<String> out;
        Observer(List<String> out) { this.out = out; }
        public void beginRoot(Object o) { out.add("R" + name(o)); }
        public void endRoot(Object o) { out.add("r" + name(o)); }
        public void beginArray(Object a, FieldInfo f) { out.add("A" + f.getSchemaName() + ":" + Array.getLength(a)); }
        public void endArray(Object a, FieldInfo f) { out.add("a" + f.getSchemaName() + ":" + Array.getLength(a)); }
        public void beginCompound(Object o, FieldInfo f, int i) { out.add("C" + f.getSchemaName() + ":" + idx(i) + ":" + name(o)); }
        public void endCompound(Object o, FieldInfo f, int i) { out.add("c" + f.getSchemaName() + ":" + idx(i) + ":" + name(o)); }
        public void visitValue(Object v, FieldInfo f, int i)
        {
            try { out.add("V" + f.getSchemaName() + ":" + idx(i) + ":" + tok(v)); }
            catch (Exception e) { throw new IllegalStateException(e); }
        }
    }

    static class Custom implements WalkFilter
    {
        final List<String> out;
        final Set<Integer> no = new HashSet<>();
        int n = 0;
        Custom(String s, List<String> out)
        {
            this.out = out;
            for (String x : s.split(",")) if (!x.isEmpty()) no.add(Integer.valueOf(x));
        }
        boolean decide(String w, FieldInfo f, int i)
        {
            out.add("?" + w + f.getSchemaName() + ":" + idx(i));
            return !no.contains(n++);
        }
        public boolean beforeArray(Object a, FieldInfo f) { return decide("A", f, WalkerConst.NOT_ELEMENT); }
        public boolean afterArray(Object a, FieldInfo f) { return decide("a", f, WalkerConst.NOT_ELEMENT); }
        public boolean beforeCompound(Object o, FieldInfo f, int i) { return decide("C", f, i); }
        public boolean afterCompound(Object o, FieldInfo f, int i) { return decide("c", f, i); }
        public boolean beforeValue(Object v, FieldInfo f, int i) { return decide("V", f, i); }
        public boolean afterValue(Object v, FieldInfo f, int i) { return decide("v", f, i); }
    }

    static byte[] unhex(String s)
    {
        byte[] b = new byte[s.length() / 2];
        for (int i = 0; i < b.length; i++) b[i] = (byte)Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
        return b;
    }

    static WalkFilter one(String s, List<String> out)
    {
        String r = s.substring(1);
        switch (s.charAt(0))
        {
        case 'D': return new DepthWalkFilter(Integer.parseInt(r));
        case 'L': return new ArrayLengthWalkFilter(Integer.parseInt(r));
        case 'X': return new RegexWalkFilter(new String(unhex(r), StandardCharsets.UTF_8));
        case 'N': return new DefaultWalkFilter();
        default: return new Custom(r, out);
        }
    }

    static Object value(TypeInfo i, String t) throws Exception
    {
        String r = t.substring(1);
        Class<?> c = i == null ? null : i.getJavaClass();
        switch (t.charAt(0))
        {
        case 'n': return null;
        case 'i':
            if (c == byte.class) return Byte.valueOf(r);
            if (c == short.class) return Short.valueOf(r);
            if (c == int.class) return Integer.valueOf(r);
            if (c == long.class) return Long.valueOf(r);
            if (c == BigInteger.class) return new BigInteger(r);
            return Integer.valueOf(r);
        case 'b': return r.equals("1");
        case 'd':
        {
            double d = r.equals("nan") ? Double.NaN : Double.longBitsToDouble(Long.parseUnsignedLong(r, 16));
            return c == float.class ? (Object)(float)d : (Object)d;
        }
        case 's': return new String(unhex(r), StandardCharsets.UTF_8);
        case 'y': return unhex(r);
        case 'x': { String[] p = r.split(":"); return new BitBuffer(p.length > 1 ? unhex(p[1]) : new byte[0], Long.parseLong(p[0])); }
        case 'e':
            for (Object e : c.getEnumConstants())
                if (((zserio.runtime.ZserioEnum)e).getGenericValue().toString().equals(r)) return e;
            throw new IllegalStateException("no enum item " + r);
        default:
        {
            TypeInfo u = i.getUnderlyingType();
            return c.getConstructor(u.getJavaClass()).newInstance(value(u, "i" + r));
        }
        }
    }

    static String op(ZserioTreeCreator c, String[] p) throws Exception
    {
        switch (p[0])
        {
        case "R": c.beginRoot(); break;
        case "r":
        {
            Object o = c.endRoot();
            ByteArrayBitStreamWriter w = new ByteArrayBitStreamWriter();
            ((zserio.runtime.io.Writer)o).initializeOffsets(0);
            ((zserio.runtime.io.Writer)o).write(w);
            long n = w.getBitPosition();
            byte[] b = w.toByteArray();
            w.close();
            StringBuilder s = new StringBuilder();
            for (byte x : b) s.append(String.format("%02x", x));
            return n + ":" + s;
        }
        case "A": c.beginArray(p[1]); break;
        case "a": c.endArray(); break;
        case "C": c.beginCompound(p[1]); break;
        case "c": c.endCompound(); break;
        case "V":
        {
            TypeInfo i = null;
            if (!p[2].equals("n") && !p[2].equals("i1") && !p[2].equals("s41")) i = c.getFieldType(p[1]);
            else
            {
                try { i = c.getFieldType(p[1]); }
                catch (ZserioError e) { }
            }
            c.setValue(p[1], value(i, p[2]));
            break;
        }
        case "E": c.beginCompoundElement(); break;
        case "e": c.endCompoundElement(); break;
        case "v":
        {
            TypeInfo i = null;
            if (!p[1].equals("i1") && !p[1].equals("s41")) i = c.getElementType();
            else
            {
                try { i = c.getElementType(); }
                catch (ZserioError e) { }
            }
            c.addValueElement(value(i, p[1]));
            break;
        }
        case "T": return c.getFieldType(p[1]).getSchemaName();
        case "t": return c.getElementType().getSchemaName();
        }
        return ".";
    }

    public static String run(String[] a) throws Exception
    {
        Drv.Type t = Drv.type(a[1]);
        List<String> out = new ArrayList<>();
        if (a[0].equals("WK"))
        {
            Object o = Drv.object(t, a[2]);
            Walker w;
            if (a[3].equals("-")) w = new Walker(new Observer(out));
            else if (a[3].startsWith("&"))
            {
                List<WalkFilter> l = new ArrayList<>();
                for (String s : a[3].substring(1).split("&")) if (!s.isEmpty()) l.add(one(s, out));
                w = new Walker(new Observer(out), new AndWalkFilter(l));
            }
            else w = new Walker(new Observer(out), one(a[3], out));
            w.walk(o);
            return String.join(" ", out);
        }
        ZserioTreeCreator c = new ZserioTreeCreator((TypeInfo)t.cls.getMethod("typeInfo").invoke(null));
        for (String s : a[2].split(" "))
        {
            try { out.add(op(c, s.split("="))); }
            catch (ZserioError e) { out.add("x"); }
        }
        return String.join(" ", out);
    }
}
