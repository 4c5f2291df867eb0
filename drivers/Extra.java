/** Additional commands: checks replace this class by their own. */
public class Extra
{
    public static String run(String[] a) throws Exception { throw new IllegalStateException("no command " + a[0]); }
}
