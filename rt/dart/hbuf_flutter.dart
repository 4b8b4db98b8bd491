import 'package:flutter/material.dart';
// what a form and a table of hbuf_flutter are made of; nothing is drawn
abstract class FormBuild {
  bool readOnly = false;
  Map<double, int> widthSizes = const {};
  EdgeInsetsGeometry? padding;
  InputDecoration? decoration;
  external Widget build(BuildContext context);
}
class TextFormBuild extends FormBuild {
  String? initialValue;
  void Function(String? val)? onSaved;
  String? Function(String? val)? validator;
  int? maxLines;
}
class FileFormBuild extends FormBuild {
  String? initialValue;
  void Function(String? val)? onSaved;
  String? Function(String? val)? validator;
  List<String>? extensions;
}
class ClickFormBuild<T> extends FormBuild {
  T? initialValue;
  void Function(T? val)? onSaved;
  String? Function(T? val)? validator;
}
class MenuFormBuild<T> extends FormBuild {
  T? value;
  void Function(T? val)? onSaved;
  String? Function(T? val)? validator;
  List<DropdownMenuItem<T>>? items;
  bool toNull = false;
}
class DatetimeFormBuild extends FormBuild {
  String? initialValue;
  void Function(DateTime? val)? onSaved;
  String? Function(DateTime? val)? validator;
}
class SwitchFormBuild extends FormBuild {
  bool? initialValue;
  void Function(bool? val)? onSaved;
  String? Function(bool? val)? validator;
}
class ImageFormImage {
  final String url;
  ImageFormImage(this.url);
}
class ImageFormBuild extends FormBuild {
  List<ImageFormImage>? initialValue;
  void Function(List<ImageFormImage>? val)? onSaved;
  String? Function(List<ImageFormImage>? val)? validator;
  int maxCount = 1;
  bool clip = false;
  double? outWidth;
  double? outHeight;
  List<String>? extensions;
}
class TablesCell { final Widget child; const TablesCell({required this.child}); }
class TablesRow<T> { final T data; const TablesRow({required this.data}); }
class TablesColumn<T> {
  final int index;
  final TablesCell Function(BuildContext context) headerBuilder;
  final TablesCell Function(BuildContext context, int x, int y, T data) cellBuilder;
  TablesColumn({required this.index, required this.headerBuilder, required this.cellBuilder});
}
class TablesBuild<T> {
  TablesRow<T> Function(BuildContext context, int y)? rowBuilder;
  int rowCount = 0;
  external Map<String, TablesColumn<T>> get columns;
  external Widget build(BuildContext context);
}
extension DateTimeFormat on DateTime {
  external String format(String format);
}
