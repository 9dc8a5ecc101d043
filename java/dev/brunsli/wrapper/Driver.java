package dev.brunsli.wrapper;

import java.io.BufferedInputStream;
import java.io.BufferedOutputStream;
import java.io.DataInputStream;
import java.io.DataOutputStream;
import java.io.FileInputStream;
import java.io.FileOutputStream;
import java.io.IOException;
import java.nio.ByteBuffer;

/** Applies Codec to every item of a file; results: 1 bytes, 2 IOException, 3 anything else. */
public class Driver {
  public static void main(String[] args) throws Exception {
    System.load(args[0]);
    try (DataInputStream in = new DataInputStream(new BufferedInputStream(new FileInputStream(args[1])));
        DataOutputStream out = new DataOutputStream(new BufferedOutputStream(new FileOutputStream(args[2])))) {
      int n = in.readInt();
      for (int i = 0; i < n; ++i) {
        boolean decode = in.readInt() != 0;
        byte[] data = new byte[in.readInt()];
        in.readFully(data);
        for (int way = 0; way < 2; ++way) {
          int status = 3;
          byte[] r = new byte[0];
          try {
            if (way == 0) {
              ByteBuffer b = ByteBuffer.allocateDirect(data.length);
              b.put(data);
              r = decode ? Codec.decode(b) : Codec.encode(b);
            } else {
              r = decode ? Codec.decode(data) : Codec.encode(data);
            }
            status = 1;
          } catch (IOException e) {
            status = 2;
          }
          out.writeInt(status);
          out.writeInt(r.length);
          out.write(r);
        }
        // only direct buffers are accepted
        try {
          if (decode) Codec.decode(ByteBuffer.wrap(data)); else Codec.encode(ByteBuffer.wrap(data));
          System.exit(7);
        } catch (IllegalArgumentException e) {
        }
      }
    }
  }
}
