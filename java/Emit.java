/* TLC operator override for module Emit: append one JSON line to the file named by -Dverif.emit. */
import java.io.*;
import java.nio.charset.StandardCharsets;
import tlc2.value.impl.*;

public class Emit {
    static PrintStream out;
    static synchronized void line(String s) {
        try {
            if (out == null) {
                String f = System.getProperty("verif.emit");
                if (f == null) return;
                out = new PrintStream(new BufferedOutputStream(new FileOutputStream(f, true), 1 << 16), false, "UTF-8");
                Runtime.getRuntime().addShutdownHook(new Thread(() -> out.flush()));
            }
            out.println(s);
        } catch (IOException e) { throw new RuntimeException(e); }
    }
    public static Value EmitLine(Value v) {
        line(((StringValue) v).getVal().toString());
        return BoolValue.ValTrue;
    }
}
