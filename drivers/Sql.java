import java.io.*;
import java.lang.reflect.*;
import java.nio.charset.StandardCharsets;
import java.sql.*;
import java.util.*;
import zserio.runtime.ZserioError;
import zserio.runtime.validation.*;

/** Driver of generated SQL databases in Java: one session (command) per line. */
public class Sql
{
    static class Tab { List<String[]> cols = new ArrayList<>(); List<String[]> exp = new ArrayList<>(); }
    static final Map<String, Tab> TABS = new HashMap<>();
    static final Map<String, Map<String, String>> DBS = new HashMap<>();

    static String cap(String n) { return Character.toUpperCase(n.charAt(0)) + n.substring(1); }

    static Object parse(String text, Class<?> c) throws Exception
    {
        Drv.Build b = new Drv.Build(text);
        String k = b.next();
        return k.equals("{") ? b.compound() : b.simple(k, c);
    }

    static Method method(Class<?> c, String n, int args)
    {
        for (Method m : c.getMethods()) if (m.getName().equals(n) && m.getParameterTypes().length == args) return m;
        throw new IllegalStateException("no method " + n + " in " + c);
    }

    static Object provider(String full, Map<String, String> params) throws Exception
    {
        Tab t = TABS.get(full);
        Class<?> c = Class.forName(full + "$ParameterProvider");
        return Proxy.newProxyInstance(c.getClassLoader(), new Class<?>[] {c}, (o, m, a) -> {
            for (String[] e : t.exp) if (m.getName().equals("get" + cap(e[0])))
            {
                if (!(a[0] instanceof ResultSet)) throw new IllegalStateException("no result set");
                return parse(params.get(e[0]), m.getReturnType());
            }
            throw new IllegalStateException(m.toString());
        });
    }

    static String[] array(String s) { return s.equals("*") ? null : s.split(","); }

    static String hex(String k)
    {
        StringBuilder s = new StringBuilder();
        for (byte b : k.getBytes(java.nio.charset.StandardCharsets.UTF_8)) s.append(String.format("%02x", b));
        return s.toString();
    }

    static String report(ValidationReport r)
    {
        StringBuilder s = new StringBuilder(r.getNumberOfValidatedTables() + " " + r.getNumberOfValidatedRows() + " [ ");
        for (ValidationError e : r.getErrors())
        {
            s.append(e.getTableName() + "." + e.getFieldName() + "=" + e.getType() + "(");
            if (e.getRowKeyValues() != null) for (String k : e.getRowKeyValues()) s.append(hex(k)).append(",");
            s.append(") ");
        }
        return s + "]";
    }

    static String op(Object db, Map<String, String> inst, String[] a, Map<String, String> params) throws Exception
    {
        Class<?> dc = db.getClass();
        switch (a[0])
        {
        case "schema":
            if (a.length < 2 || a[1].isEmpty()) Drv.call(db, "createSchema");
            else Drv.invoke(method(dc, "createSchema", 1), db, new HashSet<>(Arrays.asList(a[1].split(","))));
            return "ok";
        case "delschema": Drv.call(db, "deleteSchema"); return "ok";
        case "names": return Drv.call(db, "databaseName") + "," + String.join(",", (String[])Drv.call(db, "tableNames"));
        case "validate":
        {
            boolean ex = false;
            for (String f : inst.values()) if (!TABS.get(f).exp.isEmpty()) ex = true;
            if (!ex) return report((ValidationReport)Drv.invoke(method(dc, "validate", 0), db));
            Class<?> c = Class.forName(dc.getName() + "$ParameterProvider");
            Object p = Proxy.newProxyInstance(c.getClassLoader(), new Class<?>[] {c}, (o, m, x) -> {
                for (Map.Entry<String, String> e : inst.entrySet())
                    if (m.getName().equals("get" + cap(e.getKey()) + "ParameterProvider")) return provider(e.getValue(), params);
                throw new IllegalStateException(m.toString());
            });
            return report((ValidationReport)Drv.invoke(method(dc, "validate", 1), db, p));
        }
        }
        Object t = Drv.call(db, "get" + cap(a[1]));
        String full = inst.get(a[1]);
        Tab info = TABS.get(full);
        Class<?> tc = t.getClass(), rc = Class.forName(full + "Row");
        switch (a[0])
        {
        case "create": Drv.call(t, "createTable"); return "ok";
        case "createrowid": Drv.call(t, "createOrdinaryRowIdTable"); return "ok";
        case "drop": Drv.call(t, "deleteTable"); return "ok";
        case "write":
        case "update":
        {
            List<Object> rows = new ArrayList<>();
            if (!a[3].isEmpty()) for (String r : a[3].split(";"))
            {
                Object row = rc.getConstructor().newInstance();
                String[] cells = r.split(",");
                for (int i = 0; i < cells.length; i++)
                {
                    String n = cap(info.cols.get(i)[0]);
                    if (cells[i].equals("n")) { if (i % 2 == 0) Drv.call(row, "setNull" + n); continue; }
                    Drv.invoke(method(rc, "set" + n, 1), row, parse(cells[i], method(rc, "set" + n, 1).getParameterTypes()[0]));
                }
                rows.add(row);
            }
            if (a[0].equals("write"))
            {
                if (a[2].equals("*")) Drv.invoke(method(tc, "write", 1), t, rows);
                else Drv.invoke(method(tc, "write", 2), t, rows, array(a[2]));
            }
            else if (a[2].equals("*")) Drv.invoke(method(tc, "update", 2), t, rows.get(0), a[4]);
            else Drv.invoke(method(tc, "update", 3), t, rows.get(0), array(a[2]), a[4]);
            return "ok";
        }
        case "read":
        {
            String w = a.length > 3 && !a[3].isEmpty() ? a[3] : null;
            List<Object> args = new ArrayList<>();
            List<Class<?>> types = new ArrayList<>();
            if (!info.exp.isEmpty()) { args.add(provider(full, params)); types.add(Class.forName(full + "$ParameterProvider")); }
            if (!a[2].equals("*")) { args.add(array(a[2])); types.add(String[].class); }
            if (w != null) { args.add(w); types.add(String.class); }
            Method m = tc.getMethod("read", types.toArray(new Class<?>[0]));
            StringBuilder s = new StringBuilder("[");
            for (Object row : (List<?>)Drv.invoke(m, t, args.toArray()))
            {
                if (s.length() > 1) s.append(";");
                for (int i = 0; i < info.cols.size(); i++)
                {
                    String[] c = info.cols.get(i);
                    if (i > 0) s.append(",");
                    if ((Boolean)Drv.call(row, "isNull" + cap(c[0]))) { s.append("n"); continue; }
                    if (!a[2].equals("*") && !Arrays.asList(a[2].split(",")).contains(c[0])) s.append("SET");
                    Object v = Drv.call(row, "get" + cap(c[0]));
                    if (c[1].equals("c")) Drv.dump(Drv.type(c[2]), v, s); else s.append(Drv.tok(c[1], v));
                }
            }
            return s + "]";
        }
        default: throw new IllegalStateException(a[0]);
        }
    }

    static Map<String, String> map(String s, String sep)
    {
        Map<String, String> m = new LinkedHashMap<>();
        if (!s.equals("-")) for (String x : s.split(sep)) m.put(x.split("=")[0], x.split("=")[1]);
        return m;
    }

    static String session(String[] a) throws Exception
    {
        Class<?> c = Class.forName(a[0]);
        Map<String, String> relocs = map(a[2], ","), params = map(a[4], ";");
        Connection con = null;
        Object db;
        try
        {
            if (a[3].equals("1"))
            {
                con = DriverManager.getConnection("jdbc:sqlite:" + a[1]);
                Map<String, String> att = new HashMap<>();
                Map<String, String> files = new HashMap<>();
                for (Map.Entry<String, String> e : relocs.entrySet())
                {
                    if (!files.containsKey(e.getValue()))
                    {
                        files.put(e.getValue(), "att_" + e.getKey());
                        con.createStatement().executeUpdate("ATTACH DATABASE '" + e.getValue() + "' AS att_" + e.getKey());
                    }
                    att.put(e.getKey(), files.get(e.getValue()));
                }
                db = c.getConstructor(Connection.class, Map.class).newInstance(con, att);
            }
            else if (relocs.isEmpty()) db = c.getConstructor(String.class).newInstance(a[1]);
            else db = c.getConstructor(String.class, Map.class).newInstance(a[1], relocs);
        }
        catch (InvocationTargetException e) { throw (Exception)e.getCause(); }
        StringBuilder out = new StringBuilder();
        try
        {
            for (int i = 5; i < a.length; i++)
            {
                if (i > 5) out.append(" # ");
                try { out.append(op(db, DBS.get(a[0]), a[i].split("\\|", -1), params)); }
                catch (SQLException e) { out.append("!sql" + String.valueOf(e.getMessage()).replace("#", " ")); }
                catch (ZserioError | IOException | IllegalArgumentException e) { out.append("!runtime"); }
            }
        }
        finally
        {
            Drv.call(db, "close");
            if (con != null) { con.createStatement().execute("SELECT 1"); con.close(); }
        }
        if (SqliteMock.openConnections != 0) throw new IllegalStateException("a connection was left open");
        return out.toString();
    }

    public static void main(String[] args) throws Exception
    {
        Drv.loadDesc(args[0]);
        try (BufferedReader r = new BufferedReader(new FileReader(args[1])))
        {
            Tab cur = null;
            Map<String, String> db = null;
            for (String l = r.readLine(); l != null; l = r.readLine())
            {
                String[] w = l.split(" ");
                switch (w[0])
                {
                case "T": TABS.put(w[1], cur = new Tab()); break;
                case "K": cur.cols.add(new String[] {w[1], w[2], w[3]}); break;
                case "X": cur.exp.add(new String[] {w[1], w[2], w[3]}); break;
                case "D": DBS.put(w[1], db = new LinkedHashMap<>()); break;
                case "I": db.put(w[1], w[2]); break;
                }
            }
        }
        SqliteMock.start(args[2], args[3]);
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.UTF_8));
        PrintStream out = new PrintStream(new FileOutputStream(FileDescriptor.out), false, "UTF-8");
        for (String l = in.readLine(); l != null; l = in.readLine())
        {
            String r;
            try { r = "OK|" + session(l.replace("@L", "java").split("\t", -1)); }
            catch (Exception e)
            {
                SqliteMock.openConnections = 0;
                r = "ERR|" + e + (e.getStackTrace().length > 0 ? " at " + e.getStackTrace()[0] : "");
            }
            out.print(r.replace('\n', ' ') + "\n");
            out.flush();
        }
    }
}
