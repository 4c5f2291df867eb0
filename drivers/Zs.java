import java.io.BufferedReader;
import java.io.ByteArrayOutputStream;
import java.io.InputStreamReader;
import java.io.PrintStream;
import java.nio.charset.StandardCharsets;

/** Runs the zserio compiler many times in one process: tab separated arguments per line, result and output per line. */
public class Zs
{
    public static void main(String[] args) throws Exception
    {
        PrintStream out = System.out;
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.UTF_8));
        String line;
        while ((line = in.readLine()) != null)
        {
            ByteArrayOutputStream buf = new ByteArrayOutputStream();
            PrintStream p = new PrintStream(buf, true, "UTF-8");
            System.setOut(p);
            System.setErr(p);
            String res;
            try
            {
                res = zserio.tools.ZserioTool.runTool(line.split("\t"), zserio.tools.ZserioTool.Executor.JAVA_MAIN) ? "0" : "1";
            }
            catch (Throwable t)
            {
                t.printStackTrace(p);
                res = "2";
            }
            p.flush();
            StringBuilder b = new StringBuilder();
            for (byte x : buf.toByteArray())
                b.append(Character.forDigit(x >> 4 & 15, 16)).append(Character.forDigit(x & 15, 16));
            out.println(res + "|" + b);
            out.flush();
        }
    }
}
