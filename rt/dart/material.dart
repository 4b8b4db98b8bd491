export 'package:flutter/widgets.dart';
import 'package:flutter/widgets.dart';
class Tooltip extends Widget { final String? message; final Widget? child; const Tooltip({this.message, this.child}); }
class Checkbox extends Widget {
  final bool? value;
  final bool tristate;
  final void Function(bool? value)? onChanged;
  const Checkbox({required this.value, this.tristate = false, required this.onChanged});
}
class InputDecoration { final String? labelText; const InputDecoration({this.labelText}); }
class DropdownMenuItem<T> extends Widget { final T? value; final Widget child; const DropdownMenuItem({this.value, required this.child}); }
