export 'package:flutter/foundation.dart';
class Locale { final String languageCode; const Locale(this.languageCode, [String? countryCode]); }
class BuildContext { final Locale locale; BuildContext(this.locale); }
abstract class LocalizationsDelegate<T> {
  const LocalizationsDelegate();
  bool isSupported(Locale locale);
  Future<T> load(Locale locale);
  bool shouldReload(covariant LocalizationsDelegate<T> old);
  external Type get type;
}
class Localizations { static T? of<T>(BuildContext context, Type type); }
abstract class Widget { const Widget(); }
class Text extends Widget { final String data; final int? maxLines; final TextOverflow? overflow; const Text(this.data, {this.maxLines, this.overflow}); }
enum TextOverflow { clip, fade, ellipsis, visible }
enum BoxFit { fill, contain, cover }
class SizedBox extends Widget { const SizedBox({double? width, double? height, Widget? child}); }
class Image extends Widget { final String src; final BoxFit? fit; Image.network(this.src, {this.fit}); }
abstract class EdgeInsetsGeometry { const EdgeInsetsGeometry(); }
class EdgeInsets extends EdgeInsetsGeometry { const EdgeInsets.only({double left = 0.0, double top = 0.0, double right = 0.0, double bottom = 0.0}); }
