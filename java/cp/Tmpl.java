package pkga.pkgb;
public class Tmpl { public static String id() { return "ID-00000000"; } }
