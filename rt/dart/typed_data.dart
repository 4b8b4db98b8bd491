class ByteBuffer { int get lengthInBytes; Uint8List asUint8List([int offsetInBytes = 0, int? length]); }
class ByteData {
  ByteData(int length);
  ByteData.view(ByteBuffer buffer, [int offsetInBytes = 0, int? length]);
  ByteBuffer get buffer; int get lengthInBytes;
}
class Uint8List extends List<int> {
  Uint8List(int length);
  Uint8List.fromList(List<int> elements);
  ByteBuffer get buffer;
}
