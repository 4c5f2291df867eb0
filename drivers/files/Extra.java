import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import zserio.runtime.DebugStringUtil;
import zserio.runtime.ZserioError;
import zserio.runtime.io.*;

/** Serialization utilities of the Java runtime. */
public class Extra
{
    interface Act { void run() throws Exception; }

    static String failure(Act a)
    {
        try { a.run(); }
        catch (ZserioError | IOException e) { return "known"; }
        catch (Throwable e) { return "unknown:" + e.getClass().getName(); }
        return "silent";
    }

    static String hexOf(byte[] b) { return Drv.hex(b, b.length); }

    public static String run(String[] a) throws Exception
    {
        if (!a[0].equals("FI")) throw new IllegalStateException("no command " + a[0]);
        Drv.Type t = Drv.type(a[1]);
        Object o = Drv.object(t, a[3]);
        Class<?> c = o.getClass();
        zserio.runtime.io.Writer w = (zserio.runtime.io.Writer)o;
        String f = a[2] + "/file.bin";
        StringBuilder flags = new StringBuilder();
        String dump = Drv.text(t, o);
        List<Object> read = new ArrayList<>();
        BitBuffer b = SerializeUtil.serialize(w);
        String r = b.getBitSize() + ":" + hexOf(b.getBuffer()) + "|";
        read.add(SerializeUtil.deserialize(c, b));
        byte[] bytes = SerializeUtil.serializeToBytes(w);
        r += hexOf(bytes) + "|";
        read.add(SerializeUtil.deserializeFromBytes(c, bytes));
        Files.write(Paths.get(f), new byte[20000]);
        SerializeUtil.serializeToFile(w, f);
        r += hexOf(Files.readAllBytes(Paths.get(f))) + "|";
        read.add(SerializeUtil.deserializeFromFile(c, f));
        for (int n : new int[] {0, 1, 7, 100000})
        {
            SerializeUtil.PreallocatedArraySize p = new SerializeUtil.PreallocatedArraySize(n);
            read.add(SerializeUtil.deserialize(c, b, p));
            read.add(SerializeUtil.deserializeFromBytes(c, bytes, p));
            read.add(SerializeUtil.deserializeFromFile(c, new File(f), p));
        }
        for (Object x : read) flags.append(x.equals(o) && Drv.text(t, x).equals(dump) ? '1' : '0');
        String j = a[2] + "/file.json";
        String text = DebugStringUtil.toJsonString(o, 4);
        DebugStringUtil.toJsonFile(o, j);
        flags.append(new String(Files.readAllBytes(Paths.get(j)), StandardCharsets.UTF_8).equals(text) ? '1' : '0');
        String back = failure(() -> { if (!o.equals(DebugStringUtil.fromJsonFile(c, j))) throw new IllegalStateException(); });
        String back2 = failure(() -> { if (!o.equals(DebugStringUtil.fromJsonString(c, text))) throw new IllegalStateException(); });
        flags.append(back.equals(back2) ? '1' : '0');
        r += flags + "|";
        for (String p : new String[] {a[2] + "/no/such", a[2], "/dev/full"})
        {
            r += failure(() -> SerializeUtil.serializeToFile(w, p)) + ",";
            r += failure(() -> DebugStringUtil.toJsonFile(o, p)) + ",";
        }
        for (String p : new String[] {a[2] + "/no/such", a[2]})
        {
            r += failure(() -> SerializeUtil.deserializeFromFile(c, p)) + ",";
            r += failure(() -> DebugStringUtil.fromJsonFile(c, p)) + ",";
        }
        return r;
    }
}
