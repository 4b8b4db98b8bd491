class Int64 implements Comparable<Object> {
  Int64([int value = 0]);
  static final Int64 ZERO = Int64(0);
  static final Int64 ONE = Int64(1);
  static Int64 parseInt(String s);
  static Int64? tryParseInt(String s);
  static Int64 parseRadix(String s, int radix);
  int toInt(); double toDouble(); String toStringUnsigned(); String toRadixString(int radix); String toRadixStringUnsigned(int radix);
  bool get isNegative; bool get isZero;
  int compareTo(Object other);
  Int64 operator +(Object other); Int64 operator -(Object other); Int64 operator *(Object other);
  bool operator <(Object other); bool operator >(Object other); bool operator <=(Object other); bool operator >=(Object other);
}
