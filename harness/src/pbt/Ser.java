package pbt;

import java.io.ByteArrayInputStream;
import java.io.ByteArrayOutputStream;
import java.io.IOException;
import java.io.ObjectInputStream;
import java.io.ObjectOutputStream;

/** Serialization. */
final class Ser {
  private Ser() {}

  /** What is read back after writing the object, or a failed case. */
  static <T> T copy(Case c, T o) {
    try {
      ByteArrayOutputStream bytes = new ByteArrayOutputStream();
      ObjectOutputStream out = new ObjectOutputStream(bytes);
      out.writeObject(o);
      out.close();
      @SuppressWarnings("unchecked")
      T r = (T) new ObjectInputStream(new ByteArrayInputStream(bytes.toByteArray())).readObject();
      return r;
    } catch (IOException | ClassNotFoundException | RuntimeException e) {
      c.fail("serialization of " + o.getClass().getName() + " threw " + e);
      return null;
    }
  }
}
