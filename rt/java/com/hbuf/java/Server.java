package com.hbuf.java;

import java.util.concurrent.CompletableFuture;

public interface Server {
    interface Reader {
        <T> T read(String text, Class<T> type) throws Exception;
    }

    class Readers {
        public Reader current;
    }

    Readers readers = new Readers();

    Reader reader = new Reader() {
        public <T> T read(String text, Class<T> type) throws Exception {
            return readers.current.read(text, type);
        }
    };

    interface Context {
    }

    interface From<T> {
        T invoke(byte[] data) throws Exception;
    }

    interface Client {
        <T> CompletableFuture<T> invoke(String server, String name, long id, Data param, From<T> json, From<T> data) throws Exception;
    }

    abstract class ClientRouter {
        private final Client client;

        public ClientRouter(Client client) {
            this.client = client;
        }

        public abstract String getName();

        public abstract long getId();

        protected <T> CompletableFuture<T> invoke(String name, long id, Data param, From<T> json, From<T> data) throws Exception {
            return client.invoke(getName(), name, id, param, json, data);
        }
    }
}
