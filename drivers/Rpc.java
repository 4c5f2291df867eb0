import java.io.*;
import java.lang.reflect.*;
import java.nio.charset.StandardCharsets;
import java.util.*;
import zserio.runtime.io.*;
import zserio.runtime.pubsub.*;
import zserio.runtime.service.*;
import zserio.runtime.ZserioError;
import zserio.runtime.io.Writer;

/** Driver of generated services and pubsubs: one command per line, one result line each. */
public class Rpc
{
    static Map<String, Map<String, String[]>> SVC = new HashMap<>(), PS = new HashMap<>();

    static String hex(byte[] b)
    {
        StringBuilder s = new StringBuilder();
        for (byte x : b) s.append(String.format("%02x", x & 255));
        return s.toString();
    }
    static byte[] unhex(String s)
    {
        byte[] b = new byte[s.length() / 2];
        for (int i = 0; i < b.length; ++i) b[i] = (byte)Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
        return b;
    }
    static Class<?> cls(String n) throws Exception { return n.equals("bytes") ? byte[].class : Class.forName(n); }
    static Object obj(String type, String hx) throws Exception
    {
        if (type.equals("bytes")) return unhex(hx);
        try { return cls(type).getConstructor(BitStreamReader.class).newInstance(new ByteArrayBitStreamReader(unhex(hx))); }
        catch (InvocationTargetException e) { throw (Exception)e.getCause(); }
    }
    static String rehex(Object o) throws Exception
    {
        if (o instanceof byte[]) return hex((byte[])o);
        ByteArrayBitStreamWriter w = new ByteArrayBitStreamWriter();
        ((Writer)o).write(w);
        return hex(w.toByteArray());
    }
    static class Boom extends RuntimeException {}

    // abstract methods of the generated service class are implemented by source which the check generates: see RpcImpls
    public static class Script
    {
        public String mode, resp, req;
        public List<String> log = new ArrayList<>();
        public Object call(ServiceInterface self, String method, String reqType, String respType, Object request, Object ctx)
        {
            try
            {
                log.add(method + "(" + rehex(request) + "," + ctx + ")" + (request.getClass() == cls(reqType) ? "" : "TYPE"));
                if (mode.equals("throw")) throw new Boom();
                if (mode.equals("nest"))
                {
                    mode = "ok";
                    ServiceData<? extends Writer> d = self.callMethod(method, unhex(req), 77);
                    log.add("nested(" + hex(d.getByteArray()) + ")");
                }
                return obj(respType, resp);
            }
            catch (RuntimeException e) { throw e; }
            catch (Exception e) { throw new RuntimeException(e); }
        }
    }
    static class Transport implements ServiceClientInterface
    {
        Script s; ServiceInterface impl;
        public byte[] callMethod(String name, ServiceData<? extends Writer> request, Object ctx)
        {
            byte[] a = request.getByteArray();
            boolean same = Arrays.equals(a, request.getByteArray());
            s.log.add(name + "[" + hex(a) + "," + ctx + "]" + (same ? "" : "DIFF"));
            if (impl != null) return impl.callMethod(name, a, ctx).getByteArray();
            if (s.mode.equals("throw")) throw new ServiceException("down");
            return unhex(s.resp);
        }
    }
    static class Broker implements PubsubInterface
    {
        List<String> log; int next = 5;
        List<Object[]> subs = new ArrayList<>();
        public void publish(String topic, byte[] data, Object ctx)
        {
            log.add("pub(" + topic + "," + hex(data) + "," + ctx + ")");
            deliver(topic, data);
        }
        void deliver(String topic, byte[] data)
        {
            for (Object[] s : new ArrayList<>(subs))
                if (s[1].equals(topic))
                    try { ((PubsubInterface.Callback)s[2]).invoke(topic, data); }
                    catch (PubsubException e) { throw e; }
                    catch (ZserioError e) { log.add("err(" + s[0] + ")"); }
        }
        public int subscribe(String topic, PubsubInterface.Callback cb, Object ctx)
        {
            next += 3;
            log.add("sub(" + topic + "," + ctx + ")=" + next);
            subs.add(new Object[] { next, topic, cb });
            return next;
        }
        public void unsubscribe(int id)
        {
            log.add("uns(" + id + ")");
            if (!subs.removeIf(s -> (Integer)s[0] == id)) throw new PubsubException("no subscription");
        }
    }
    static Object call(Object o, Method m, Object... args) throws Exception
    {
        try { return m.invoke(o, args); }
        catch (InvocationTargetException e)
        {
            if (e.getCause() instanceof Exception) throw (Exception)e.getCause();
            throw e;
        }
    }
    static String cap(String s) { return Character.toUpperCase(s.charAt(0)) + s.substring(1); }
    static String pubsub(String name, String ops) throws Exception
    {
        List<String> log = new ArrayList<>();
        Broker b = new Broker();
        b.log = log;
        Class<?> c = Class.forName(name);
        Object ps = c.getConstructor(PubsubInterface.class).newInstance(b);
        List<Integer> ids = new ArrayList<>();
        for (String op : ops.split(";"))
        {
            String[] w = op.split(":", -1);
            try
            {
                if (w[0].equals("p"))
                {
                    String t = PS.get(name).get(w[1])[0];
                    Object m = obj(t, w[2]);
                    if (w[3].equals("-")) call(ps, c.getMethod("publish" + cap(w[1]), cls(t)), m);
                    else call(ps, c.getMethod("publish" + cap(w[1]), cls(t), Object.class), m, Integer.valueOf(w[3]));
                }
                else if (w[0].equals("s"))
                {
                    final int k = ids.size();
                    ids.add(null);
                    final String t = PS.get(name).get(w[1])[0];
                    final String mode = w[3];
                    PubsubCallback<Object> cb = new PubsubCallback<Object>()
                    {
                        public void invoke(String topic, Object message)
                        {
                            try
                            {
                                log.add("cb" + k + "(" + topic + "," + rehex(message) + ")" + (message.getClass() == cls(t) ? "" : "TYPE"));
                                if (mode.equals("once")) call(ps, c.getMethod("unsubscribe", int.class), ids.get(k));
                            }
                            catch (RuntimeException e) { throw e; }
                            catch (Exception e) { throw new RuntimeException(e); }
                        }
                    };
                    Integer id;
                    if (w[2].equals("-")) id = (Integer)call(ps, c.getMethod("subscribe" + cap(w[1]), PubsubCallback.class), cb);
                    else id = (Integer)call(ps, c.getMethod("subscribe" + cap(w[1]), PubsubCallback.class, Object.class), cb, Integer.valueOf(w[2]));
                    ids.set(k, id);
                    log.add("id" + k + "=" + id);
                }
                else if (w[0].equals("u")) call(ps, c.getMethod("unsubscribe", int.class), ids.get(Integer.parseInt(w[1])));
                else if (w[0].equals("d")) b.deliver(w[1], unhex(w[2]));
            }
            catch (PubsubException e) { log.add("PubsubException"); }
        }
        return String.join(" ", log);
    }
    static String execute(String[] a) throws Exception
    {
        if (a[0].equals("N"))
        {
            String n = a[1].substring(a[1].lastIndexOf('.') + 1);
            Class<?> c = Class.forName(a[1] + "$" + n + "Service");
            return c.getMethod("serviceFullName").invoke(null) + " " + String.join(",", (String[])c.getMethod("methodNames").invoke(null));
        }
        if (a[0].equals("API"))
        {
            Set<String> names = new HashSet<>();
            for (Method m : Class.forName(a[1]).getMethods()) names.add(m.getName());
            List<String> r = new ArrayList<>();
            for (String m : a[2].split(","))
            {
                int i = m.indexOf('_');
                if (names.contains(i < 0 ? m : m.substring(0, i) + cap(m.substring(i + 1)))) r.add(m);
            }
            return String.join(" ", r);
        }
        if (a[0].equals("Q")) return pubsub(a[1], a[2]);
        Script s = new Script();
        s.mode = a[6]; s.resp = a[5]; s.req = a[4];
        Object ctx = a[3].equals("-") ? null : (Object)Integer.valueOf(a[3]);
        try
        {
            if (a[0].equals("S"))
            {
                ServiceData<? extends Writer> d = RpcImpls.make(a[1], s).callMethod(a[2], unhex(a[4]), ctx);
                String r = hex(d.getByteArray());
                s.log.add("=" + r + (r.equals(hex(d.getByteArray())) ? "" : "DIFF"));
            }
            else
            {
                String[] t = SVC.get(a[1]).get(a[2]);
                Transport tr = new Transport();
                tr.s = s;
                if (a[0].equals("L")) tr.impl = RpcImpls.make(a[1], s);
                String n = a[1].substring(a[1].lastIndexOf('.') + 1);
                Class<?> c = Class.forName(a[1] + "$" + n + "Client");
                Object client = c.getConstructor(ServiceClientInterface.class).newInstance(tr);
                Object r = ctx == null ? call(client, c.getMethod(a[2] + "Method", cls(t[0])), obj(t[0], a[4])) :
                        call(client, c.getMethod(a[2] + "Method", cls(t[0]), Object.class), obj(t[0], a[4]), ctx);
                s.log.add("=" + rehex(r) + (r.getClass() == cls(t[1]) ? "" : "TYPE"));
            }
        }
        catch (Boom e) { s.log.add("Boom"); }
        catch (ServiceException e) { s.log.add("ServiceException"); }
        catch (ZserioError e) { s.log.add("error"); }
        return String.join(" ", s.log);
    }
    public static void main(String[] args) throws Exception
    {
        Map<String, String[]> cur = null;
        for (String line : java.nio.file.Files.readAllLines(java.nio.file.Paths.get(args[0])))
        {
            String[] w = line.split(" ");
            if (w[0].equals("S")) SVC.put(w[1], cur = new HashMap<>());
            else if (w[0].equals("B")) PS.put(w[1], cur = new HashMap<>());
            else cur.put(w[1], new String[] { w[2], w[3] });
        }
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.US_ASCII), 1 << 16);
        PrintStream out = new PrintStream(new FileOutputStream(FileDescriptor.out), false, "UTF-8");
        for (String line; (line = in.readLine()) != null; )
        {
            String r;
            try { r = "OK|" + execute(line.split("\t", -1)); }
            catch (Throwable e) { r = "ERR|" + e.getClass().getSimpleName() + "|" + String.valueOf(e.getMessage()).replace('\n', ' '); }
            out.println(r);
            out.flush();
        }
    }
}
