package mc;

/** Minimal JSON writing. */
final class Json {
  private Json() {}

  static String str(String s) {
    StringBuilder b = new StringBuilder("\"");
    for (int i = 0; i < s.length(); i++) {
      char c = s.charAt(i);
      if (c == '"' || c == '\\') {
        b.append('\\').append(c);
      } else if (c >= 0x20 && c < 0x7f) {
        b.append(c);
      } else {
        b.append("\\u");
        String h = Integer.toHexString(c);
        for (int k = h.length(); k < 4; k++) b.append('0');
        b.append(h);
      }
    }
    return b.append('"').toString();
  }
}
