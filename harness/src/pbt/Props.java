package pbt;

/** Registry of the properties. */
final class Props {
  private Props() {}

  static Prop byId(String id) {
    switch (id) {
      case "C01":
        return new NumberProps.Signed();
      case "C02":
        return new NumberProps.Unsigned();
      case "C03":
        return new NumberProps.DecimalFloat("C03", "fF", "%.0f", 0.5, "%.0f", 1.5, "%.0f", 2.5, "%#.0f", 2.0, "%f", -0.0,
            "%.1f", 0.25, "%.2f", 1.005, "%.3f", 0.0005, "%.0f", 0.4999999, "%f", Double.MAX_VALUE, "%f", Double.MIN_VALUE,
            "%.20f", 0.1, "%012.3f", -1.5, "%+-12.3f", 1.5, "%.1f", 9.95, "%.2f", 99.995, "%.10f", 1e22, "%f", 1e23, "%f", 0.1f,
            "%.1f", 0.05, "%.1f", 0.049, "%.4f", 0.00005);
      case "C04":
        return new NumberProps.DecimalFloat("C04", "eE", "%e", 0.0, "%.0e", 9.5, "%.0e", 9.4, "%#.0e", 1.0, "%.3e", 9.9995,
            "%.2e", 9.9995e-10, "%e", 9.9999995e99, "%e", Double.MIN_VALUE, "%e", Double.MAX_VALUE, "%.20e", 0.1, "%015e", -1.5,
            "%e", 1e100, "%e", 1e-100, "%.1e", 1.25, "%.1e", 1.35, "%.17e", 5e-324, "%e", 123456.5f);
      case "C05":
        return new NumberProps.DecimalFloat("C05", "gG", "%g", 0.0, "%#g", 0.0, "%g", 999999.5, "%g", 999999.4, "%g", 0.0001,
            "%g", 0.00009999995, "%g", 0.00009999994, "%#g", 1e-10, "%#1.1g", 789456123.0, "%.0g", 9.5, "%.0g", 0.5, "%#.3g", 1.0,
            "%#.1g", 1.0, "%g", 100000.0, "%g", 1e6, "%.3g", 999.5, "%.3g", 99.95, "%#.3g", 99.95, "%G", 1e-7, "%.17g", 0.1,
            "%#g", 1e10, "%#.2g", 1e20, "%g", 123456.0, "%g", 1234567.0, "%#.6g", 100000.0, "%#.6g", 123456.0, "%.10g", 1e-5);
      case "C06":
        return new NumberProps.HexFloat();
      case "C07":
        return new NumberProps.BigDec();
      case "C08":
        return new NumberProps.RoundTrip();
      case "C09":
        return new NumberProps.Specials();
      case "C10":
        return new TextProps.Text();
      case "C11":
        return new TextProps.Width();
      case "C12":
        return new TextProps.Compile();
      case "C13":
        return new TextProps.Compose();
      case "C14":
        return new TextProps.Consume();
      case "C21":
        return new TextProps.Dates();
      case "C22":
        return new TextProps.Limit();
      case "C23":
        return new TextProps.Pointers();
      case "C27":
        return new TextProps.Mixed();
      case "C28":
        return new TextProps.UpperCase();
      case "C15":
        return new StateProps.Destinations();
      case "C16":
        return new StateProps.Histories();
      case "C18":
        return new StateProps.Arguments();
      case "C19":
        return new StateProps.Failures();
      case "C20":
        return new StateProps.Faults();
      case "C17":
        return new ThreadProps();
      case "C24":
        return new RopeProps();
      case "C25":
        return new EnvProps.Locales();
      case "C26":
        return new EnvProps.Runtimes();
      case "C29":
        return new CostProps.Memory();
      case "C30":
        return new CostProps.Evaluation();
      case "C31":
        return new LifeProps.Changing();
      case "C35":
        return new ForeignProps();
      case "C36":
        return new BuildProps();
      case "C37":
        return new PureProps();
      case "C34":
        return new SyntaxProps();
      case "C33":
        return new ScaleProps();
      case "C32":
        return new LifeProps.Retention();
      default:
        throw new IllegalArgumentException("unknown property " + id);
    }
  }

  static String level(String id) {
    return id.equals("C20") ? "fault_enumeration" : "exploration";
  }
}
