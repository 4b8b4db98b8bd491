package app;

import java.util.*;

// JSON: Map, List, String, Boolean, null; numbers are texts.
class Json {
    private final String s;
    private int i = 0;

    private Json(String s) {
        this.s = s;
    }

    static Object parse(String s) {
        return new Json(s).value();
    }

    private void space() {
        while (i < s.length() && s.charAt(i) <= ' ') {
            i++;
        }
    }

    private Object value() {
        space();
        char c = s.charAt(i);
        if (c == '{') {
            Map<String, Object> m = new LinkedHashMap<>();
            i++;
            for (space(); s.charAt(i) != '}'; space()) {
                if (s.charAt(i) == ',') {
                    i++;
                    space();
                }
                String k = (String) value();
                space();
                i++;
                m.put(k, value());
            }
            i++;
            return m;
        }
        if (c == '[') {
            List<Object> l = new ArrayList<>();
            i++;
            for (space(); s.charAt(i) != ']'; space()) {
                if (s.charAt(i) == ',') {
                    i++;
                }
                l.add(value());
            }
            i++;
            return l;
        }
        if (c == '"') {
            StringBuilder b = new StringBuilder();
            for (i++; s.charAt(i) != '"'; i++) {
                if (s.charAt(i) != '\\') {
                    b.append(s.charAt(i));
                    continue;
                }
                char e = s.charAt(++i);
                int k = "nrtbf".indexOf(e);
                if (e == 'u') {
                    b.append((char) Integer.parseInt(s.substring(i + 1, i + 5), 16));
                    i += 4;
                } else {
                    b.append(k < 0 ? e : "\n\r\t\b\f".charAt(k));
                }
            }
            i++;
            return b.toString();
        }
        int j = i;
        while (i < s.length() && ",]} \n".indexOf(s.charAt(i)) < 0) {
            i++;
        }
        String w = s.substring(j, i);
        return w.equals("null") ? null : w.equals("true") ? Boolean.TRUE : w.equals("false") ? (Object) Boolean.FALSE : w;
    }

    static void write(StringBuilder b, Object x) {
        if (x instanceof Map) {
            String sep = "{";
            for (Map.Entry<?, ?> e : ((Map<?, ?>) x).entrySet()) {
                b.append(sep);
                write(b, e.getKey());
                b.append(':');
                write(b, e.getValue());
                sep = ",";
            }
            b.append(sep.equals("{") ? "{}" : "}");
        } else if (x instanceof List) {
            String sep = "[";
            for (Object y : (List<?>) x) {
                b.append(sep);
                write(b, y);
                sep = ",";
            }
            b.append(sep.equals("[") ? "[]" : "]");
        } else if (x instanceof String) {
            b.append('"');
            for (char c : ((String) x).toCharArray()) {
                if (c < ' ' || c == '"' || c == '\\' || c > '~') {
                    b.append(String.format("\\u%04x", (int) c));
                } else {
                    b.append(c);
                }
            }
            b.append('"');
        } else {
            b.append(x);
        }
    }
}
