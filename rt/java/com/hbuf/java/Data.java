package com.hbuf.java;

// Stand-in for hbuf_java: what generated code needs of it.
public interface Data {
    interface FormJson {
        <T> T invoke(String text, Class<T> type) throws Exception;
    }

    FormJson formJson = new FormJson() {
        public <T> T invoke(String text, Class<T> type) throws Exception {
            return Server.reader.read(text, type);
        }
    };

    byte[] toData() throws Exception;

    <T extends Data> T formData(byte[] data) throws Exception;
}
