import 'dart:typed_data';
abstract class Data {
  Map<String, dynamic> toMap();
  ByteData toData();
  Data copy();
}
class Context { Context(); }
class Client { Client(); }
abstract class ServerClient {
  final Client client;
  ServerClient(this.client);
  String get name;
  int get id;
  external Future<T> invoke<T extends Data>(String name, int id, Data data, T Function(Map<String, dynamic> map) formMap, T Function(ByteData data) formData);
}
class ServerInvoke {
  final Future<Data> Function(List<int> buf) toData;
  final Future<List<int>> Function(Data data) formData;
  final Future<Data> Function(Context ctx, Data data) invoke;
  ServerInvoke({required this.toData, required this.formData, required this.invoke});
}
abstract class ServerRouter {
  String get name;
  int get id;
  Map<String, ServerInvoke> get invokeNames;
  Map<int, ServerInvoke> get invokeIds;
}
