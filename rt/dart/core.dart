// dart:core as far as generated code may use it; members without a body are in run.py
class Object {
  const Object();
  bool operator ==(Object other);
  int get hashCode;
  String toString();
  Type get runtimeType;
}
class Null {}
class Type {}
class Function {}
abstract class Comparable<T> { int compareTo(T other); }
abstract class Pattern {}
class bool {}
abstract class num implements Comparable<num> {
  bool get isNaN; bool get isNegative; bool get isInfinite; bool get isFinite; num get sign;
  int compareTo(num other);
  num abs(); int toInt(); double toDouble(); int round(); int floor(); int ceil(); int truncate();
  num remainder(num other); num clamp(num lower, num upper);
  String toStringAsFixed(int fractionDigits);
  static num? tryParse(String input);
  static num parse(String input);
}
abstract class int extends num {
  int abs(); bool get isEven; bool get isOdd; int get bitLength; int toUnsigned(int width); int toSigned(int width); String toRadixString(int radix);
  static int? tryParse(String source, {int? radix});
  static int parse(String source, {int? radix});
}
abstract class double extends num {
  double abs();
  static const double nan = 0.0;
  static double? tryParse(String source);
  static double parse(String source);
}
class String implements Comparable<String>, Pattern {
  int get length; bool get isEmpty; bool get isNotEmpty; List<int> get codeUnits; Iterable<int> get runes;
  int compareTo(String other);
  String operator [](int index);
  String operator +(String other);
  String operator *(int times);
  String substring(int start, [int? end]);
  bool contains(Pattern other, [int startIndex = 0]); bool startsWith(Pattern p, [int index = 0]); bool endsWith(String other);
  int indexOf(Pattern p, [int start = 0]);
  List<String> split(Pattern p); String trim(); String toLowerCase(); String toUpperCase(); String padLeft(int width, [String padding = ' ']);
  String replaceAll(Pattern from, String replace);
  static String fromCharCode(int code);
}
class RegExp implements Pattern {
  RegExp(String source, {bool multiLine = false, bool caseSensitive = true});
  bool hasMatch(String input);
}
abstract class Iterable<E> {
  int get length; bool get isEmpty; bool get isNotEmpty; E get first; E get last;
  Iterable<T> map<T>(T Function(E e) toElement);
  Iterable<E> where(bool Function(E element) test);
  Iterable<T> expand<T>(Iterable<T> Function(E element) toElements);
  Iterable<R> cast<R>();
  Iterable<T> whereType<T>();
  List<E> toList({bool growable = true});
  Set<E> toSet();
  bool contains(Object? element);
  String join([String separator = '']);
  void forEach(void Function(E element) action);
  bool any(bool Function(E element) test);
  bool every(bool Function(E element) test);
  E elementAt(int index);
  E firstWhere(bool Function(E element) test, {E Function()? orElse});
  T fold<T>(T initialValue, T Function(T previousValue, E element) combine);
  Iterable<E> skip(int count); Iterable<E> take(int count);
  Iterable<E> followedBy(Iterable<E> other);
}
class List<E> extends Iterable<E> {
  static List<T> from<T>(Iterable<dynamic> elements, {bool growable = true});
  static List<T> of<T>(Iterable<T> elements, {bool growable = true});
  static List<T> empty<T>({bool growable = false});
  static List<T> filled<T>(int length, T fill, {bool growable = false});
  static List<T> generate<T>(int length, T Function(int index) generator, {bool growable = true});
  static List<T> unmodifiable<T>(Iterable<dynamic> elements);
  E operator [](int index);
  void operator []=(int index, E value);
  List<E> operator +(List<E> other);
  List<R> cast<R>();
  void add(E value); void addAll(Iterable<E> iterable); void clear(); void insert(int index, E element);
  bool remove(Object? value); E removeAt(int index); E removeLast(); int indexOf(E element, [int start = 0]);
  void sort([int Function(E a, E b)? compare]); Iterable<E> get reversed; List<E> sublist(int start, [int? end]);
}
class Set<E> extends Iterable<E> {
  bool add(E value); bool remove(Object? value); void addAll(Iterable<E> elements); void clear();
}
class MapEntry<K, V> {
  final K key;
  final V value;
  const MapEntry(this.key, this.value);
}
class Map<K, V> {
  static Map<K2, V2> from<K2, V2>(Map<dynamic, dynamic> other);
  static Map<K2, V2> of<K2, V2>(Map<K2, V2> other);
  static Map<K2, V2> fromEntries<K2, V2>(Iterable<MapEntry<K2, V2>> entries);
  V? operator [](Object? key);
  void operator []=(K key, V value);
  Map<K2, V2> map<K2, V2>(MapEntry<K2, V2> Function(K key, V value) convert);
  Map<RK, RV> cast<RK, RV>();
  void forEach(void Function(K key, V value) action);
  bool containsKey(Object? key); bool containsValue(Object? value); V? remove(Object? key); void clear();
  void addAll(Map<K, V> other); V putIfAbsent(K key, V Function() ifAbsent);
  Iterable<K> get keys; Iterable<V> get values; Iterable<MapEntry<K, V>> get entries;
  int get length; bool get isEmpty; bool get isNotEmpty;
}
class Duration {
  const Duration({int days = 0, int hours = 0, int minutes = 0, int seconds = 0, int milliseconds = 0, int microseconds = 0});
  int get inMilliseconds;
}
class DateTime implements Comparable<DateTime> {
  DateTime(int year, [int month = 1, int day = 1, int hour = 0, int minute = 0, int second = 0, int millisecond = 0, int microsecond = 0]);
  DateTime.utc(int year, [int month = 1, int day = 1, int hour = 0, int minute = 0, int second = 0, int millisecond = 0, int microsecond = 0]);
  DateTime.now();
  DateTime.fromMillisecondsSinceEpoch(int millisecondsSinceEpoch, {bool isUtc = false});
  DateTime.fromMicrosecondsSinceEpoch(int microsecondsSinceEpoch, {bool isUtc = false});
  static DateTime? tryParse(String formattedString);
  static DateTime parse(String formattedString);
  int get millisecondsSinceEpoch; int get microsecondsSinceEpoch; bool get isUtc;
  int get year; int get month; int get day; int get hour; int get minute; int get second; int get millisecond; int get weekday;
  bool isBefore(DateTime other); bool isAfter(DateTime other); bool isAtSameMomentAs(DateTime other);
  int compareTo(DateTime other); DateTime toUtc(); DateTime toLocal(); DateTime add(Duration d); DateTime subtract(Duration d);
  String toIso8601String();
}
class Future<T> {
  static Future<U> value<U>([U? value]);
  static Future<U> error<U>(Object error);
  Future<R> then<R>(R Function(T value) onValue);
}
class Exception { Exception([dynamic message]); }
class FormatException implements Exception { final String message; const FormatException([this.message = '']); }
class Error {}
class ArgumentError extends Error { ArgumentError([dynamic message]); }
class StateError extends Error { StateError(String message); }
class UnimplementedError extends Error { UnimplementedError([String? message]); }
class UnsupportedError extends Error { UnsupportedError(String message); }
class StackTrace {}
bool identical(Object? a, Object? b);
void print(Object? object);
