class Decimal implements Comparable<Decimal> {
  static final Decimal zero = Decimal.fromInt(0);
  static final Decimal one = Decimal.fromInt(1);
  static Decimal fromInt(int value);
  static Decimal parse(String value);
  static Decimal? tryParse(String value);
  Decimal.fromJson(String value);
  String toJson(); double toDouble(); String toStringAsFixed(int fractionDigits);
  int compareTo(Decimal other); int get signum;
  Decimal operator +(Decimal other); Decimal operator -(Decimal other); Decimal operator *(Decimal other);
  bool operator <(Decimal other); bool operator >(Decimal other); bool operator <=(Decimal other); bool operator >=(Decimal other);
}
