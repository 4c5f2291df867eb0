import java.io.*;
import java.lang.reflect.*;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.sql.*;
import java.util.*;

/** A JDBC driver for SQLite on top of a child process, with what generated code needs. */
public class SqliteMock implements InvocationHandler
{
    static BufferedReader in;
    static PrintWriter out;
    static int count, openConnections;
    static boolean failed;

    static void start(String... cmd) throws Exception
    {
        Process p = new ProcessBuilder(cmd).redirectError(ProcessBuilder.Redirect.INHERIT).start();
        in = new BufferedReader(new InputStreamReader(p.getInputStream(), StandardCharsets.US_ASCII));
        out = new PrintWriter(new OutputStreamWriter(p.getOutputStream(), StandardCharsets.US_ASCII), false);
        DriverManager.registerDriver((Driver)Proxy.newProxyInstance(SqliteMock.class.getClassLoader(), new Class<?>[] {Driver.class},
                (o, m, a) -> {
                    switch (m.getName())
                    {
                    case "connect": return ((String)a[0]).startsWith("jdbc:sqlite:") ? open(((String)a[0]).substring(12)) : null;
                    case "acceptsURL": return ((String)a[0]).startsWith("jdbc:sqlite:");
                    case "hashCode": return 1;
                    case "equals": return o == a[0];
                    case "getMajorVersion": case "getMinorVersion": return 1;
                    case "jdbcCompliant": return false;
                    default: return null;
                    }
                }));
    }

    static Connection open(String file) throws Exception
    {
        String id = "c" + count++;
        ask("O " + hex(file) + " " + id);
        openConnections++;
        return (Connection)proxy(Connection.class, new SqliteMock(id, null));
    }

    static Object proxy(Class<?> c, InvocationHandler h)
    {
        return Proxy.newProxyInstance(SqliteMock.class.getClassLoader(), new Class<?>[] {c}, h);
    }

    static String hex(String s)
    {
        byte[] b = s.getBytes(StandardCharsets.UTF_8);
        return b.length == 0 ? "" : Drv.hex(b, b.length);
    }

    static String ask(String s) throws SQLException
    {
        try
        {
            out.println(s);
            out.flush();
            String r = in.readLine();
            if (r == null) throw new IllegalStateException("the SQL server ended");
            if (r.startsWith("E ")) throw new SQLException(new String(Drv.unhex(r.substring(2)), StandardCharsets.UTF_8));
            return r;
        }
        catch (IOException e) { throw new IllegalStateException(e); }
    }

    final String id, sql;
    boolean auto = true, inTx, closed;
    SqliteMock con;
    final TreeMap<Integer, String> params = new TreeMap<>();
    final List<String> batch = new ArrayList<>();

    SqliteMock(String id, String sql) { this.id = id; this.sql = sql; }

    String exec(String s, String p) throws SQLException { return ask("X " + id + " " + hex(s) + p); }

    String args()
    {
        StringBuilder s = new StringBuilder();
        int n = 1;
        for (Map.Entry<Integer, String> e : params.entrySet())
        {
            if (e.getKey() != n++) throw new IllegalStateException("parameter " + n + " not set");
            s.append(' ').append(e.getValue());
        }
        return s.toString();
    }

    SqliteMock statement(String q)
    {
        SqliteMock m = new SqliteMock(id, q);
        m.con = this;
        return m;
    }

    @Override
    public Object invoke(Object o, Method m, Object[] a) throws Throwable
    {
        if (closed && !m.getName().equals("close")) throw new SQLException("used after close");
        switch (m.getName())
        {
        // connection
        case "createStatement": return proxy(Statement.class, statement(null));
        case "prepareStatement": return proxy(PreparedStatement.class, statement((String)a[0]));
        case "getAutoCommit": return auto;
        case "setAutoCommit":
        {
            boolean b = (Boolean)a[0];
            if (b && inTx) { exec("COMMIT", ""); inTx = false; }
            if (!b && auto) { exec("BEGIN", ""); inTx = true; }
            auto = b;
            return null;
        }
        case "commit":
            if (auto) throw new SQLException("database in auto-commit mode");
            exec("COMMIT", "");
            exec("BEGIN", "");
            return null;
        case "rollback":
            exec("ROLLBACK", "");
            exec("BEGIN", "");
            return null;
        case "close":
            if (con == null && !closed) { ask("C " + id); openConnections--; }
            closed = true;
            return null;
        // statements
        case "executeUpdate": exec(a != null ? (String)a[0] : sql, args()); return 0;
        case "execute": return exec(a != null ? (String)a[0] : sql, args()).startsWith("Q");
        case "executeQuery": return proxy(ResultSet.class, new Rows(exec(a != null ? (String)a[0] : sql, args())));
        case "addBatch": batch.add(args()); return null;
        case "executeBatch":
            for (String p : batch) exec(sql, p);
            batch.clear();
            return new int[0];
        case "setNull": params.put((Integer)a[0], "n"); return null;
        case "setBoolean": params.put((Integer)a[0], (Boolean)a[1] ? "i1" : "i0"); return null;
        case "setByte": case "setShort": case "setInt": case "setLong": params.put((Integer)a[0], "i" + a[1]); return null;
        case "setFloat": case "setDouble": params.put((Integer)a[0], Drv.tok("d", a[1])); return null;
        case "setString": params.put((Integer)a[0], a[1] == null ? "n" : Drv.tok("s", a[1])); return null;
        case "setBytes": params.put((Integer)a[0], a[1] == null ? "n" : Drv.tok("y", a[1])); return null;
        default: throw new IllegalStateException(m.toString());
        }
    }

    static class Rows implements InvocationHandler
    {
        final String[] rows;
        int at = 0;
        boolean wasNull;
        String[] cur;

        Rows(String r) throws SQLException
        {
            if (!r.startsWith("Q")) throw new SQLException("query does not return ResultSet");
            rows = r.split(" ");
        }

        static Number num(String v)
        {
            switch (v.charAt(0))
            {
            case 'i': return new BigInteger(v.substring(1)).longValue();
            case 'd': return Double.longBitsToDouble(Long.parseUnsignedLong(v.substring(1), 16));
            case 's':
                try { return Double.parseDouble(text(v)); } catch (NumberFormatException e) { return 0; }
            default: return 0;
            }
        }

        static String text(String v)
        {
            switch (v.charAt(0))
            {
            case 'n': return null;
            case 'i': return v.substring(1);
            case 'd': return num(v).toString();
            default: return new String(Drv.unhex(v.substring(1)), StandardCharsets.UTF_8);
            }
        }

        @Override
        public Object invoke(Object o, Method m, Object[] a) throws Throwable
        {
            String v = null;
            if (a != null && a.length == 1 && a[0] instanceof Integer && m.getDeclaringClass() == ResultSet.class)
            {
                int i = (Integer)a[0];
                if (cur == null || i < 1 || i > cur.length) throw new SQLException("column " + i + " out of bounds");
                v = cur[i - 1];
                wasNull = v.equals("n");
            }
            switch (m.getName())
            {
            case "next":
                if (at + 1 >= rows.length) { cur = null; return false; }
                cur = rows[++at].split(",");
                return true;
            case "close": return null;
            case "wasNull": return wasNull;
            case "getInt": return num(v).intValue();
            case "getLong": return num(v).longValue();
            case "getShort": return num(v).shortValue();
            case "getByte": return num(v).byteValue();
            case "getFloat": return num(v).floatValue();
            case "getDouble": return num(v).doubleValue();
            case "getBoolean": return num(v).intValue() != 0;
            case "getString": return text(v);
            case "getBytes":
                if (v.equals("n")) return null;
                return v.charAt(0) == 'y' || v.charAt(0) == 's' ? Drv.unhex(v.substring(1)) : text(v).getBytes(StandardCharsets.UTF_8);
            case "getObject": return v.equals("n") ? null : v;
            case "getMetaData":
            {
                final String[] c = cur;
                return proxy(ResultSetMetaData.class, (p, q, b) -> {
                    if (!q.getName().equals("getColumnType")) throw new IllegalStateException(q.toString());
                    switch (c[(Integer)b[0] - 1].charAt(0))
                    {
                    case 'i': return Types.INTEGER;
                    case 'd': return Types.REAL;
                    case 's': return Types.VARCHAR;
                    case 'y': return Types.BLOB;
                    default: return Types.NUMERIC;
                    }
                });
            }
            default: throw new IllegalStateException(m.toString());
            }
        }
    }
}
