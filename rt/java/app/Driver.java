package app;

import com.hbuf.java.Data;
import com.hbuf.java.Server;
import java.io.*;
import java.lang.reflect.*;
import java.math.*;
import java.nio.charset.StandardCharsets;
import java.util.*;
import java.util.concurrent.*;

// Performs commands on generated Java: one JSON object per line in, one per line out.
@SuppressWarnings("unchecked")
public class Driver {
    static Map<String, String> classes = new HashMap<>();     // schema.Type -> class name
    static Map<String, List<Map<String, Object>>> fields = new HashMap<>();
    static Map<String, String> kinds = new HashMap<>();

    static Map<String, Object> map(Object... xs) {
        Map<String, Object> m = new LinkedHashMap<>();
        for (int i = 0; i < xs.length; i += 2) {
            m.put((String) xs[i], xs[i + 1]);
        }
        return m;
    }

    static Class<?> type(String q) throws Exception {
        return Class.forName(classes.get(q));
    }

    static Class<?> impl(String q) throws Exception {
        return Class.forName(classes.get(q) + "Impl");
    }

    static Object enumItem(String q, String v) throws Exception {
        return type(q).getMethod("valueOf", int.class).invoke(null, Integer.parseInt(v));
    }

    static Object scalar(String key, String of, String v) throws Exception {
        switch (of) {
            case "int8":
                return Byte.valueOf(v);
            case "int16":
                return Short.valueOf(v);
            case "int32":
            case "uint16":
                return Integer.valueOf(v);
            case "uint8":
                return (char) Integer.parseInt(v);
            case "int64":
            case "uint32":
                return Long.valueOf(v);
            case "uint64":
                return new BigInteger(v);
            case "bool":
                return Boolean.valueOf(v);
            case "float":
                return Float.valueOf(v);
            case "double":
                return Double.valueOf(v);
            case "string":
                return v;
            case "date":
                return new Date(Long.parseLong(v));
            case "decimal":
                return new BigDecimal(v);
        }
        return enumItem(key + "." + of, v);
    }

    static Object build(String key, Map<String, Object> t, Map<String, Object> v) throws Exception {
        String k = (String) v.get("k");
        String of = (String) t.get("of");
        switch (k) {
            case "null":
                return null;
            case "list": {
                List<Object> l = new ArrayList<>();
                for (Object x : (List<Object>) v.get("l")) {
                    l.add(build(key, t, (Map<String, Object>) x));
                }
                return l;
            }
            case "map": {
                Map<Object, Object> m = new LinkedHashMap<>();
                for (Object x : (List<Object>) v.get("m")) {
                    Map<String, Object> e = (Map<String, Object>) x;
                    m.put(scalar(key, (String) t.get("key"), (String) e.get("n")), build(key, t, (Map<String, Object>) e.get("v")));
                }
                return m;
            }
            case "data":
                return make(key + "." + of, v);
        }
        return scalar(key, of, (String) v.get("v"));
    }

    static Method method(Class<?> c, String name, int params) {
        for (Method m : c.getMethods()) {
            if (m.getName().equals(name) && m.getParameterCount() == params && !m.isBridge()) {
                m.setAccessible(true);
                return m;
            }
        }
        throw new RuntimeException("no method " + name + " in " + c.getName());
    }

    static Map<String, Object> field(String q, String n) {
        for (Map<String, Object> f : fields.get(q)) {
            if (f.get("n").equals(n)) {
                return f;
            }
        }
        throw new RuntimeException("no field " + n);
    }

    static Object create(Class<?> c) throws Exception {
        Constructor<?> k = c.getConstructor();
        k.setAccessible(true);
        return k.newInstance();
    }

    static Object make(String q, Map<String, Object> v) throws Exception {
        Object x = create(impl(q));
        String key = q.substring(0, q.indexOf('.'));
        for (Object o : (List<Object>) v.get("m")) {
            Map<String, Object> e = (Map<String, Object>) o;
            Map<String, Object> f = field(q, (String) e.get("n"));
            method(x.getClass(), "set" + f.get("hump"), 1).invoke(x, build(key, (Map<String, Object>) f.get("t"), (Map<String, Object>) e.get("v")));
        }
        return x;
    }

    static Map<String, Object> bad(Object x) {
        return map("k", "bad", "v", x == null ? "null" : x.getClass().getName() + " " + x);
    }

    static String text(Object x) {
        return x instanceof Character ? String.valueOf((int) (Character) x) : x instanceof Date ? String.valueOf(((Date) x).getTime()) : String.valueOf(x);
    }

    static Object read(String key, String shape, Map<String, Object> t, Object x) throws Exception {
        if (x == null) {
            return map("k", "null");
        }
        String of = (String) t.get("of");
        if (shape.equals("list")) {
            if (!(x instanceof List)) {
                return bad(x);
            }
            List<Object> l = new ArrayList<>();
            for (Object y : (List<Object>) x) {
                l.add(read(key, "one", t, y));
            }
            return map("k", "list", "l", l);
        }
        if (shape.equals("map")) {
            if (!(x instanceof Map)) {
                return bad(x);
            }
            TreeMap<String, Object> m = new TreeMap<>();
            for (Map.Entry<Object, Object> e : ((Map<Object, Object>) x).entrySet()) {
                Object k = e.getKey();
                m.put("enum".equals(kinds.get(key + "." + t.get("key"))) ? value(k) : text(k), read(key, "one", t, e.getValue()));
            }
            List<Object> l = new ArrayList<>();
            for (Map.Entry<String, Object> e : m.entrySet()) {
                l.add(map("n", e.getKey(), "v", e.getValue()));
            }
            return map("k", "map", "m", l);
        }
        String kind = kinds.get(key + "." + of);
        if ("data".equals(kind)) {
            return impl(key + "." + of).isInstance(x) ? show(key + "." + of, x) : bad(x);
        }
        if ("enum".equals(kind)) {
            return type(key + "." + of).isInstance(x) ? map("k", "enum", "v", value(x)) : bad(x);
        }
        String k = of.equals("bool") ? "bool" : of.equals("string") ? "str" : of.equals("date") ? "date" : of.equals("decimal") ? "dec"
            : of.equals("float") || of.equals("double") ? "num" : "int";
        return map("k", k, "v", text(x));
    }

    static String value(Object item) throws Exception {
        Field f = item.getClass().getDeclaredField("value");
        f.setAccessible(true);
        return String.valueOf(f.get(item));
    }

    static Object show(String q, Object x) throws Exception {
        String key = q.substring(0, q.indexOf('.'));
        List<Object> l = new ArrayList<>();
        for (Map<String, Object> f : fields.get(q)) {
            Map<String, Object> t = (Map<String, Object>) f.get("t");
            Object v = method(x.getClass(), "get" + f.get("hump"), 0).invoke(x);
            l.add(map("n", f.get("n"), "v", read(key, (String) t.get("shape"), t, v)));
        }
        return map("k", "data", "m", l);
    }

    // changes everything that can be changed
    static void spoil(Object x, String q) throws Exception {
        if (x instanceof List) {
            for (Object y : (List<Object>) x) {
                spoil(y, q);
            }
            ((List<Object>) x).clear();
        } else if (x instanceof Map) {
            for (Object y : ((Map<Object, Object>) x).values()) {
                spoil(y, q);
            }
            ((Map<Object, Object>) x).clear();
        } else if (x instanceof Date) {
            ((Date) x).setTime(12345);
        } else if (x instanceof Data) {
            for (Method m : x.getClass().getMethods()) {
                if (m.getName().startsWith("get") && m.getParameterCount() == 0 && !m.getName().equals("getClass")) {
                    m.setAccessible(true);
                    spoil(m.invoke(x), q);
                }
            }
            for (Method m : x.getClass().getMethods()) {
                if (m.getName().startsWith("set") && m.getParameterCount() == 1) {
                    m.setAccessible(true);
                    m.invoke(x, new Object[]{null});
                }
            }
        }
    }

    static String name(Type t) {
        return t.getTypeName().replaceAll("[\\w.$]*[.$](?=\\w)", "");
    }

    static Object facts(String q, Class<?> c) {
        TreeSet<String> ms = new TreeSet<>(), bases = new TreeSet<>();
        for (Method m : c.getMethods()) {
            if (m.isBridge() || m.getDeclaringClass() == Object.class || m.getDeclaringClass() == Data.class
                || m.getDeclaringClass() == Server.ClientRouter.class || Modifier.isStatic(m.getModifiers())) {
                continue;
            }
            List<String> ps = new ArrayList<>();
            for (Type t : m.getGenericParameterTypes()) {
                ps.add(name(t));
            }
            ms.add(m.getName() + "(" + String.join(", ", ps) + ") " + name(m.getGenericReturnType()));
        }
        for (Type t : c.getGenericInterfaces()) {
            bases.add(name(t));
        }
        return map("what", c.isInterface() ? "interface" : "class", "methods", new ArrayList<Object>(ms), "bases", new ArrayList<Object>(bases));
    }

    static String said(Throwable e) {
        while (e instanceof InvocationTargetException || e instanceof ExecutionException) {
            e = e.getCause();
        }
        return e.getClass().getSimpleName() + " " + e.getMessage();
    }

    static Object call(Map<String, Object> c) throws Exception {
        String q = (String) c.get("type");
        List<Object> seen = new ArrayList<>(), read = new ArrayList<>();
        Server.readers.current = new Server.Reader() {
            public <T> T read(String text, Class<T> type) throws Exception {
                read.add(map("text", text, "type", type.getSimpleName()));
                return type.cast(make((String) c.get("result"), (Map<String, Object>) c.get("answer")));
            }
        };
        Server.Client client = new Server.Client() {
            public <T> CompletableFuture<T> invoke(String server, String name, long id, Data param, Server.From<T> json, Server.From<T> data) throws Exception {
                seen.add(map("server", server, "name", name, "id", String.valueOf(id), "param", show((String) c.get("param"), param)));
                CompletableFuture<T> r = new CompletableFuture<>();
                if (c.get("fail") != null) {
                    r.completeExceptionally(new RuntimeException((String) c.get("fail")));
                } else {
                    r.complete(json.invoke("the answer".getBytes(StandardCharsets.UTF_8)));
                }
                return r;
            }
        };
        Class<?> k = Class.forName(classes.get(q) + "Client");
        Constructor<?> ctor = k.getConstructor(Server.Client.class);
        ctor.setAccessible(true);
        Object x = ctor.newInstance(client);
        Map<String, Object> a = map("seen", seen, "read", read, "name", method(k, "getName", 0).invoke(x));
        try {
            Object f = method(k, (String) c.get("method"), 2).invoke(x, make((String) c.get("param"), (Map<String, Object>) c.get("value")), null);
            Object r = ((CompletableFuture<Object>) f).get();
            a.put("result", r == null ? new ArrayList<Object>() : List.of(show((String) c.get("result"), r)));
        } catch (Exception e) {
            a.put("err", said(e));
        }
        return a;
    }

    static Object enumeration(Map<String, Object> c) throws Exception {
        Class<?> e = type((String) c.get("type"));
        List<Object> items = new ArrayList<>(), byValue = new ArrayList<>(), byName = new ArrayList<>(), equal = new ArrayList<>();
        Map<String, Object> consts = new LinkedHashMap<>();
        Field vs = e.getDeclaredField("values");
        vs.setAccessible(true);
        for (Object x : (Object[]) vs.get(null)) {
            Field n = e.getDeclaredField("name");
            n.setAccessible(true);
            items.add(map("name", n.get(x), "value", value(x), "text", x.toString()));
        }
        for (Field f : e.getDeclaredFields()) {
            if (f.getType() == e && Modifier.isPublic(f.getModifiers()) && Modifier.isFinal(f.getModifiers())) {
                consts.put(f.getName(), value(f.get(null)));
            }
        }
        for (Object x : (Object[]) vs.get(null)) {
            for (Object y : (Object[]) vs.get(null)) {
                if (x.equals(y) && x.hashCode() == y.hashCode()) {
                    equal.add(List.of(value(x), value(y)));
                }
            }
        }
        for (Object v : (List<Object>) c.get("values")) {
            try {
                Object x = enumItem((String) c.get("type"), (String) v);
                byValue.add(e.getField("name").get(x));
            } catch (InvocationTargetException x) {
                byValue.add("none");
            }
        }
        for (Object n : (List<Object>) c.get("names")) {
            try {
                byName.add(value(e.getMethod("nameOf", String.class).invoke(null, new String((String) n))));
            } catch (InvocationTargetException x) {
                byName.add("none");
            }
        }
        return map("items", items, "consts", consts, "byValue", byValue, "byName", byName, "equal", equal);
    }

    static Object perform(Map<String, Object> c) throws Exception {
        String q = (String) c.get("type");
        switch ((String) c.get("op")) {
            case "init":
                classes = (Map<String, String>) c.get("classes");
                fields = (Map<String, List<Map<String, Object>>>) c.get("fields");
                kinds = (Map<String, String>) c.get("kinds");
                return map();
            case "facts":
                return facts(q, Class.forName(classes.get(q) + c.get("suffix")));
            case "hold": {
                Object x = make(q, (Map<String, Object>) c.get("value"));
                Object before = show(q, x);
                Object y = method(x.getClass(), "copy", 0).invoke(x);
                Object copy = impl(q).isInstance(y) ? show(q, y) : bad(y);
                spoil(y, q);
                return map("value", before, "copy", copy, "after", show(q, x));
            }
            case "new":
                return map("value", show(q, create(impl(q))));
            case "call":
                return call(c);
            case "enum":
                return enumeration(c);
        }
        throw new RuntimeException("unknown op " + c.get("op"));
    }

    public static void main(String[] args) throws Exception {
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.UTF_8));
        PrintStream out = new PrintStream(new FileOutputStream(FileDescriptor.out), false, "UTF-8");
        for (String line; (line = in.readLine()) != null; ) {
            if (line.isEmpty()) {
                continue;
            }
            Object a;
            try {
                a = perform((Map<String, Object>) Json.parse(line));
            } catch (Throwable e) {
                a = map("panic", said(e));
            }
            StringBuilder b = new StringBuilder();
            Json.write(b, a);
            out.println(b);
        }
        out.flush();
    }
}
