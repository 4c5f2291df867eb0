
import java.lang.reflect.*;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.util.*;
import java.util.function.*;
import zserio.runtime.typeinfo.*;

/** Type information of generated Java code. */
public class Extra
{
    static boolean compound(TypeInfo i) { return TypeInfoUtil.isCompound(i.getSchemaType()); }
    static boolean builtin(TypeInfo i) { return i.getSchemaType().ordinal() < SchemaType.ENUM.ordinal(); }

    static String ref(TypeInfo i)
    {
        String s = i.getSchemaName() + "/" + i.getSchemaType().name();
        if (builtin(i))
        {
            try { s += "/" + i.getBitSize(); }
            catch (zserio.runtime.ZserioError e) { s += "/-"; }
        }
        return s;
    }

    static String num(Object v) throws Exception
    {
        if (v instanceof Boolean) return (Boolean)v ? "1" : "0";
        if (v instanceof Number) return new BigInteger(v.toString()).toString();
        try { return String.valueOf(v.getClass().getMethod("getGenericValue").invoke(v)); }
        catch (NoSuchMethodException e) { return String.valueOf(v.getClass().getMethod("getValue").invoke(v)); }
    }

    static String generic(Object v) throws Exception
    {
        if (v == null) return "n";
        if (v instanceof Boolean) return (Boolean)v ? "b1" : "b0";
        if (v instanceof Float || v instanceof Double) return Drv.tok("d", v);
        if (v instanceof Number) return "i" + v;
        if (v instanceof String) return Drv.tok("s", v);
        if (v instanceof zserio.runtime.ZserioEnum) return "e" + num(v);
        if (v instanceof zserio.runtime.ZserioBitmask) return "m" + num(v);
        return "o";
    }

    static Class<?> box(Class<?> c)
    {
        return c.isPrimitive() ? Array.get(Array.newInstance(c, 1), 0).getClass() : c;
    }

    static class Walk
    {
        Set<String> seen = new HashSet<>();
        TreeSet<String> lines = new TreeSet<>();

        String use(TypeInfo i) throws Exception { visit(i); return ref(i); }

        void items(StringBuilder o, List<ItemInfo> l)
        {
            for (ItemInfo i : l)
                o.append(" " + i.getSchemaName() + "=" + i.getValue() + (i.isDeprecated() ? "D" : "") + (i.isRemoved() ? "R" : ""));
        }

        void visit(TypeInfo i) throws Exception
        {
            if (builtin(i) || !seen.add(i.getSchemaName())) return;
            StringBuilder o = new StringBuilder(i.getSchemaType().name() + " " + i.getSchemaName());
            if (!i.getJavaClass().getName().equals(i.getSchemaName())) o.append(" !class " + i.getJavaClass().getName());
            if (!i.getJavaType().name().equals(i.getSchemaType().name())) o.append(" !type " + i.getJavaType());
            switch (i.getSchemaType())
            {
            case ENUM:
            case BITMASK:
                o.append(" " + ref(i.getUnderlyingType()) + " n" + i.getUnderlyingTypeArguments().size());
                items(o, i.getSchemaType() == SchemaType.ENUM ? i.getEnumItems() : i.getBitmaskValues());
                break;
            case STRUCT:
            case CHOICE:
            case UNION:
                template(o, i, true);
                for (ParameterInfo p : i.getParameters()) o.append(" P" + p.getSchemaName() + ":" + use(p.getTypeInfo()));
                for (FieldInfo f : i.getFields()) o.append(" F" + field(i, f));
                for (FunctionInfo f : i.getFunctions()) o.append(" U" + f.getSchemaName() + ":" + use(f.getTypeInfo()));
                if (i.getSchemaType() == SchemaType.CHOICE)
                {
                    o.append(" on" + (i.getSelector().isEmpty() ? ",empty" : ""));
                    for (CaseInfo c : i.getCases())
                    {
                        List<String> l = new ArrayList<>();
                        for (Supplier<Object> s : c.getCaseExpressions()) l.add(num(s.get()));
                        o.append(" C" + String.join(",", l) + ":" + (c.getField() == null ? "-" : c.getField().getSchemaName()));
                    }
                }
                break;
            case SQL_TABLE:
                template(o, i, false);
                o.append(" {" + i.getSqlConstraint() + "} {" + i.getVirtualTableUsing() + "} " + (i.isWithoutRowId() ? "norowid" : "rowid"));
                for (ColumnInfo c : i.getColumns())
                    o.append(" F" + c.getSchemaName() + ":" + use(c.getTypeInfo()) + ":n" + c.getTypeArguments().size() + "," +
                        c.getSqlTypeName() + ",{" + c.getSqlConstraint() + "}" + (c.isVirtual() ? ",virtual" : ""));
                break;
            case SQL_DATABASE:
                for (TableInfo t : i.getTables()) o.append(" T" + t.getSchemaName() + ":" + use(t.getTypeInfo()));
                break;
            case PUBSUB:
                for (MessageInfo m : i.getMessages())
                    o.append(" M" + m.getSchemaName() + ":" + use(m.getTypeInfo()) + "," + (m.isPublished() ? "p" : "") +
                        (m.isSubscribed() ? "s" : "") + ",{" + m.getTopic() + "}");
                break;
            case SERVICE:
                for (MethodInfo m : i.getMethods())
                    o.append(" M" + m.getSchemaName() + ":" + use(m.getResponseTypeInfo()) + "," + use(m.getRequestTypeInfo()));
                break;
            default:
                o.append(" ?");
            }
            lines.add(o.toString());
        }

        void template(StringBuilder o, TypeInfo i, boolean args) throws Exception
        {
            if (i.getTemplateName().isEmpty()) return;
            o.append(" <" + i.getTemplateName());
            if (args) for (TypeInfo a : i.getTemplateArguments()) o.append(" " + use(a));
            o.append(">");
        }

        String field(TypeInfo i, FieldInfo f) throws Exception
        {
            String s = f.getSchemaName() + ":" + use(f.getTypeInfo()) + ":n" + f.getTypeArguments().size();
            if (f.isExtended()) s += ",ext";
            if (f.getAlignment() != null) s += ",align" + f.getAlignment().getAsInt();
            if (f.getOffset() != null) s += ",offset";
            if (f.getInitializer() != null)
            {
                Object v = f.getInitializer().get();
                JavaType jt = f.getTypeInfo().getJavaType();
                s += ",init" + generic(jt == JavaType.FLOAT || jt == JavaType.DOUBLE ? (Object)((Number)v).doubleValue() : v);
            }
            if (f.isOptional()) s += ",optional";
            if (f.getOptionalCondition() != null) s += ",if";
            if (f.getConstraint() != null) s += ",constraint";
            if (f.isArray()) s += ",array";
            if (f.getArrayLength() != null) s += ",length";
            if (f.isPacked()) s += ",packed";
            if (f.isImplicit()) s += ",implicit";
            // the named functions exist and have the described type
            Class<?> c = i.getJavaClass();
            Method get = c.getMethod(f.getGetterName());
            Class<?> r = get.getReturnType();
            c.getMethod(f.getSetterName(), r);
            if (f.isOptional())
            {
                c.getMethod(f.getIsUsedIndicatorName());
                c.getMethod(f.getIsSetIndicatorName());
            }
            else if (!f.getIsUsedIndicatorName().isEmpty()) s += ",!used";
            if (f.isArray())
            {
                if (!r.isArray()) s += ",!array";
                else r = r.getComponentType();
            }
            if (!box(r).equals(box(f.getTypeInfo().getJavaClass()))) s += ",!class " + r + " " + f.getTypeInfo().getJavaClass();
            return s;
        }
    }

    static void visit(Object o, TypeInfo i, List<String> out) throws Exception
    {
        out.add("{");
        out.add(i.getSchemaName());
        if (i.getJavaClass() != o.getClass()) out.add("!type");
        String tag = null;
        if (i.getSchemaType() != SchemaType.STRUCT) tag = tagName(o);
        for (FieldInfo f : i.getFields())
        {
            if (i.getSchemaType() != SchemaType.STRUCT && !f.getSchemaName().equals(tag)) continue;
            if (f.isExtended() && !(Boolean)Drv.call(o, "is" + cap(f.getSchemaName()) + "Present")) break;
            Object v = Drv.call(o, f.getGetterName());
            out.add(f.getSchemaName());
            if (f.getOptionalCondition() != null) out.add("if" + (f.getOptionalCondition().test(o) ? 1 : 0));
            if (f.isOptional() && (Boolean)Drv.call(o, f.getIsUsedIndicatorName()) != (v != null)) out.add("!used");
            if (v == null) { out.add("n"); continue; }
            if (f.getConstraint() != null) out.add("c" + (f.getConstraint().test(o) ? 1 : 0));
            if (f.getArrayLength() != null) out.add("l" + f.getArrayLength().applyAsInt(o));
            int n = f.isArray() ? Array.getLength(v) : 1;
            for (int k = 0; k < n; k++)
            {
                Object e = f.isArray() ? Array.get(v, k) : v;
                if (f.getOffset() != null) out.add("o" + num(f.getOffset().apply(o, k)));
                for (BiFunction<Object, Integer, Object> x : f.getTypeArguments()) out.add("a" + generic(x.apply(o, k)));
                if (compound(f.getTypeInfo())) visit(e, f.getTypeInfo(), out);
            }
        }
        for (FunctionInfo f : i.getFunctions())
        {
            String x = generic(f.getFunctionResult().apply(o)), y = generic(Drv.call(o, "func" + cap(f.getSchemaName())));
            out.add(f.getSchemaName() + "=" + x);
            if (!x.equals(y)) out.add("!result " + y);
        }
        out.add("}");
    }

    static String cap(String n) { return Character.toUpperCase(n.charAt(0)) + n.substring(1); }

    static String tagName(Object o) throws Exception
    {
        int t = (Integer)Drv.call(o, "choiceTag");
        for (java.lang.reflect.Field f : o.getClass().getFields())
            if (f.getName().startsWith("CHOICE_") && f.getInt(null) == t) return f.getName().substring(7);
        return null;
    }

    public static String run(String[] a) throws Exception
    {
        if (a[0].equals("TI"))
        {
            Walk w = new Walk();
            w.visit((TypeInfo)Class.forName(a[1]).getMethod("typeInfo").invoke(null));
            return String.join("; ", w.lines);
        }
        if (a[0].equals("TO"))
        {
            Drv.Type t = Drv.type(a[1]);
            Object o = Drv.object(t, a[2]);
            List<String> out = new ArrayList<>();
            visit(o, (TypeInfo)t.cls.getMethod("typeInfo").invoke(null), out);
            return String.join(" ", out);
        }
        throw new IllegalStateException("no command " + a[0]);
    }
}
