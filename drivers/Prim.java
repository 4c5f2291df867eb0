// Driver for the Java runtime primitives: bit streams, floats, bit buffers.
import java.io.*;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.util.*;
import zserio.runtime.*;
import zserio.runtime.io.*;

public class Prim
{
    static byte[] unhex(String s)
    {
        byte[] b = new byte[s.length() / 2];
        for (int i = 0; i < b.length; ++i)
            b[i] = (byte)Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
        return b;
    }

    static String hex(byte[] b)
    {
        StringBuilder s = new StringBuilder();
        for (byte x : b)
            s.append(String.format("%02x", x & 0xff));
        return s.toString();
    }

    static float f32(String h)
    {
        return Float.intBitsToFloat(Integer.parseUnsignedInt(h, 16));
    }

    static double f64(String h)
    {
        return Double.longBitsToDouble(Long.parseUnsignedLong(h, 16));
    }

    static void writeOp(ByteArrayBitStreamWriter w, String[] o) throws IOException
    {
        switch (o[0])
        {
        case "u":
        case "U": {
            int n = Integer.parseInt(o[1]);
            BigInteger v = new BigInteger(o[2]);
            if (n == 64 || v.bitLength() > 63)
                w.writeBigInteger(v, n);
            else if (o[0].equals("U") && n == 8 && v.bitLength() < 16)
                w.writeUnsignedByte(v.shortValue());
            else if (o[0].equals("U") && n == 16 && v.bitLength() < 32)
                w.writeUnsignedShort(v.intValue());
            else if (o[0].equals("U") && n == 32)
                w.writeUnsignedInt(v.longValue());
            else if (o[0].equals("U") && n > 0)
                w.writeBigInteger(v, n);
            else
                w.writeBits(v.longValue(), n);
            break;
        }
        case "s":
        case "S": {
            int n = Integer.parseInt(o[1]);
            long v = Long.parseLong(o[2]);
            if (o[0].equals("S") && n == 8 && v == (byte)v)
                w.writeByte((byte)v);
            else if (o[0].equals("S") && n == 16 && v == (short)v)
                w.writeShort((short)v);
            else if (o[0].equals("S") && n == 32 && v == (int)v)
                w.writeInt((int)v);
            else if (o[0].equals("S") && n == 64)
                w.writeLong(v);
            else
                w.writeSignedBits(v, n);
            break;
        }
        case "vi16": w.writeVarInt16(Short.parseShort(o[1])); break;
        case "vi32": w.writeVarInt32(Integer.parseInt(o[1])); break;
        case "vi64": w.writeVarInt64(Long.parseLong(o[1])); break;
        case "vi": w.writeVarInt(Long.parseLong(o[1])); break;
        case "vu16": w.writeVarUInt16(Short.parseShort(o[1])); break;
        case "vu32": w.writeVarUInt32(Integer.parseInt(o[1])); break;
        case "vu64": w.writeVarUInt64(Long.parseLong(o[1])); break;
        case "vu": w.writeVarUInt(new BigInteger(o[1])); break;
        case "vs": w.writeVarSize(Integer.parseInt(o[1])); break;
        case "f16": w.writeFloat16(f32(o[1])); break;
        case "f32": w.writeFloat32(f32(o[1])); break;
        case "f64": w.writeFloat64(f64(o[1])); break;
        case "str": w.writeString(new String(unhex(o[1]), StandardCharsets.UTF_8)); break;
        case "by": w.writeBytes(unhex(o[1])); break;
        case "bb": w.writeBitBuffer(new BitBuffer(unhex(o[2]), Long.parseLong(o[1]))); break;
        case "b": w.writeBool(o[1].equals("1")); break;
        case "al": w.alignTo(Integer.parseInt(o[1])); break;
        default: throw new IllegalStateException("op " + o[0]);
        }
    }

    static String readOp(ByteArrayBitStreamReader r, String[] o) throws IOException
    {
        switch (o[0])
        {
        case "u": {
            int n = Integer.parseInt(o[1]);
            return n == 64 ? r.readBigInteger(n).toString() : "" + r.readBits(n);
        }
        case "U": {
            int n = Integer.parseInt(o[1]);
            if (n == 8)
                return "" + r.readUnsignedByte();
            if (n == 16)
                return "" + r.readUnsignedShort();
            if (n == 32)
                return "" + r.readUnsignedInt();
            return n > 0 && n <= 64 ? r.readBigInteger(n).toString() : "" + r.readBits(n);
        }
        case "s": return "" + r.readSignedBits(Integer.parseInt(o[1]));
        case "S": {
            int n = Integer.parseInt(o[1]);
            if (n == 8)
                return "" + r.readByte();
            if (n == 16)
                return "" + r.readShort();
            if (n == 32)
                return "" + r.readInt();
            if (n == 64)
                return "" + r.readLong();
            return "" + r.readSignedBits(n);
        }
        case "vi16": return "" + r.readVarInt16();
        case "vi32": return "" + r.readVarInt32();
        case "vi64": return "" + r.readVarInt64();
        case "vi": return "" + r.readVarInt();
        case "vu16": return "" + r.readVarUInt16();
        case "vu32": return "" + r.readVarUInt32();
        case "vu64": return "" + r.readVarUInt64();
        case "vu": return "" + r.readVarUInt();
        case "vs": return "" + r.readVarSize();
        case "f16": return String.format("%08x", Float.floatToRawIntBits(r.readFloat16()));
        case "f32": return String.format("%08x", Float.floatToRawIntBits(r.readFloat32()));
        case "f64": return String.format("%016x", Double.doubleToRawLongBits(r.readFloat64()));
        case "str": return "x" + hex(r.readString().getBytes(StandardCharsets.UTF_8));
        case "by": return "x" + hex(r.readBytes());
        case "bb": {
            BitBuffer b = r.readBitBuffer();
            return b.getBitSize() + "x" + hex(b.getBuffer());
        }
        case "b": return r.readBool() ? "1" : "0";
        case "al": r.alignTo(Integer.parseInt(o[1])); return "";
        case "sp": r.setBitPosition(Long.parseLong(o[1])); return "";
        default: throw new IllegalStateException("op " + o[0]);
        }
    }

    static String sizeOp(String[] o)
    {
        switch (o[0])
        {
        case "vi16": return "" + BitSizeOfCalculator.getBitSizeOfVarInt16(Short.parseShort(o[1]));
        case "vi32": return "" + BitSizeOfCalculator.getBitSizeOfVarInt32(Integer.parseInt(o[1]));
        case "vi64": return "" + BitSizeOfCalculator.getBitSizeOfVarInt64(Long.parseLong(o[1]));
        case "vi": return "" + BitSizeOfCalculator.getBitSizeOfVarInt(Long.parseLong(o[1]));
        case "vu16": return "" + BitSizeOfCalculator.getBitSizeOfVarUInt16(Short.parseShort(o[1]));
        case "vu32": return "" + BitSizeOfCalculator.getBitSizeOfVarUInt32(Integer.parseInt(o[1]));
        case "vu64": return "" + BitSizeOfCalculator.getBitSizeOfVarUInt64(Long.parseLong(o[1]));
        case "vu": return "" + BitSizeOfCalculator.getBitSizeOfVarUInt(new BigInteger(o[1]));
        case "vs": return "" + BitSizeOfCalculator.getBitSizeOfVarSize(Integer.parseInt(o[1]));
        case "str": return "" + BitSizeOfCalculator.getBitSizeOfString(new String(unhex(o[1]), StandardCharsets.UTF_8));
        case "by": return "" + BitSizeOfCalculator.getBitSizeOfBytes(unhex(o[1]));
        case "bb": return "" + BitSizeOfCalculator.getBitSizeOfBitBuffer(new BitBuffer(unhex(o[2]), Long.parseLong(o[1])));
        case "al": return "" + BitPositionUtil.alignTo(Integer.parseInt(o[1]), Long.parseLong(o[2]));
        default: throw new IllegalStateException("op " + o[0]);
        }
    }

    static boolean known(Throwable e)
    {
        return e instanceof IOException || e instanceof ZserioError || e instanceof IllegalArgumentException &&
                e.getClass() == IllegalArgumentException.class;
    }

    static String exec(String[] a) throws Exception
    {
        StringBuilder out = new StringBuilder();
        switch (a[0])
        {
        case "W": {
            ByteArrayBitStreamWriter w = a[1].length() % 4 == 0 ? new ByteArrayBitStreamWriter() :
                    new ByteArrayBitStreamWriter(a[1].length() % 6);
            for (int i = 3; i < a.length; ++i)
            {
                try
                {
                    writeOp(w, a[i].split(":", -1));
                    out.append(w.getBitPosition()).append(',');
                }
                catch (Exception e)
                {
                    if (!known(e))
                        throw e;
                    return "E" + (i - 3) + "|" + w.getBitPosition() + "|" + out + "|" + hex(w.toByteArray());
                }
            }
            String r = "OK|" + out + "|" + hex(w.toByteArray());
            w.close();
            return r;
        }
        case "R": {
            byte[] data = unhex(a[1]);
            long n = Long.parseLong(a[2]);
            ByteArrayBitStreamReader r = a[3].equals("1") ? new ByteArrayBitStreamReader(new BitBuffer(data, n)) :
                    new ByteArrayBitStreamReader(data, n);
            for (int i = 4; i < a.length; ++i)
            {
                try
                {
                    out.append(readOp(r, a[i].split(":", -1))).append('@').append(r.getBitPosition()).append(',');
                }
                catch (Exception e)
                {
                    if (!known(e))
                        throw e;
                    return "E" + (i - 4) + "|" + out;
                }
            }
            return "OK|" + out;
        }
        case "Z":
            try
            {
                return "OK|" + sizeOp(a[1].split(":", -1));
            }
            catch (ZserioError e)
            {
                return "E";
            }
        case "H16":
            for (int i = Integer.parseInt(a[1]); i < Integer.parseInt(a[2]); ++i)
            {
                float f = FloatUtil.convertShortToFloat((short)i);
                out.append(String.format("%08x%04x", Float.floatToRawIntBits(f), FloatUtil.convertFloatToShort(f) & 0xffff));
            }
            return "OK|" + out;
        case "F":
            for (int i = 1; i < a.length; ++i)
            {
                float f = f32(a[i]);
                out.append(String.format("%04x%08x%08x,", FloatUtil.convertFloatToShort(f) & 0xffff,
                        FloatUtil.convertFloatToInt(f),
                        Float.floatToRawIntBits(FloatUtil.convertIntToFloat(FloatUtil.convertFloatToInt(f)))));
            }
            return "OK|" + out;
        case "D":
            for (int i = 1; i < a.length; ++i)
            {
                double f = f64(a[i]);
                out.append(String.format("%016x%016x,", FloatUtil.convertDoubleToLong(f),
                        Double.doubleToRawLongBits(FloatUtil.convertLongToDouble(FloatUtil.convertDoubleToLong(f)))));
            }
            return "OK|" + out;
        case "Q": {
            List<BitBuffer> bs = new ArrayList<>();
            for (int i = 1; i + 1 < a.length; i += 2)
            {
                try
                {
                    bs.add(new BitBuffer(unhex(a[i + 1]), Long.parseLong(a[i])));
                }
                catch (IllegalArgumentException e)
                {
                    return "E" + (i / 2);
                }
            }
            StringBuilder eq = new StringBuilder(), hs = new StringBuilder();
            for (BitBuffer x : bs)
            {
                for (BitBuffer y : bs)
                {
                    eq.append(x.equals(y) ? '1' : '0');
                    hs.append(x.hashCode() == y.hashCode() ? '1' : '0');
                }
                out.append(x.getBitSize()).append(':').append(x.getByteSize()).append(':').append(hex(x.getBuffer())).append(',');
            }
            return "OK|" + eq + "|" + hs + "|" + out + "|";
        }
        default: return "?";
        }
    }

    public static void main(String[] args) throws Exception
    {
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.UTF_8));
        PrintStream out = new PrintStream(new FileOutputStream(FileDescriptor.out), true, "UTF-8");
        String line;
        while ((line = in.readLine()) != null)
        {
            String r;
            try
            {
                r = exec(line.split("\t", -1));
            }
            catch (Throwable e)
            {
                r = (known(e) ? "ERR|" : "EXC|") + e.getClass().getName() + "|" + e.getMessage();
            }
            out.println(r.replace("\n", " "));
        }
    }
}
