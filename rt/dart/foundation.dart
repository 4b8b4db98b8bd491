class SynchronousFuture<T> implements Future<T> {
  SynchronousFuture(T value);
  Future<R> then<R>(R Function(T value) onValue);
}
