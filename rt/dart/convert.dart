class JsonCodec { dynamic decode(String source); String encode(Object? value); }
class Utf8Codec { List<int> encode(String string); String decode(List<int> codeUnits, {bool? allowMalformed}); }
final JsonCodec json = JsonCodec();
final Utf8Codec utf8 = Utf8Codec();
String jsonEncode(Object? object);
dynamic jsonDecode(String source);
