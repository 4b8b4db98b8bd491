// What generated TypeScript needs of hbuf_ts (a stand-in; the library itself is not here).
declare global {
    type BinaryData = ArrayBuffer
}

export interface Data {
    toJson(): Record<string, any>
    toData(): BinaryData
}

export class Context {
    headers: Record<string, string> = {}
}

export class RecordEntry<K extends string | number | symbol, V> {
    constructor(readonly key: K, readonly value: V) {
    }
}

export function isArray(v: any): boolean {
    return Array.isArray(v)
}

export function isRecord(v: any): boolean {
    return typeof v === "object" && v !== null && !Array.isArray(v)
}

export function convertArray<T>(list: any, fn: (item: any) => T): T[] | null {
    return list == null ? null : list.map((e: any) => fn(e))
}

export function convertRecord<K extends string | number | symbol, T>(
    map: Record<any, any> | null | undefined, fn: (key: any, value: any) => RecordEntry<K, T>): Record<K, T> | null {
    if (map == null) {
        return null
    }
    const ret = {} as Record<K, T>
    for (const key of Object.keys(map)) {
        const e = fn(key, (map as any)[key])
        ret[e.key] = e.value
    }
    return ret
}

export interface Client {
    invoke<T>(serverName: string, name: string, id: number, param: Data, fromJson: ((json: any) => T) | null,
              fromData: ((data: BinaryData) => T) | null): Promise<T>
}

export abstract class ServerClient {
    constructor(private readonly client: Client) {
    }

    abstract get name(): string

    abstract get id(): number

    protected invoke<T>(name: string, id: number, param: Data, fromJson: ((json: any) => T) | null,
                        fromData: ((data: BinaryData) => T) | null): Promise<T> {
        return this.client.invoke(this.name, name, id, param, fromJson, fromData)
    }
}

export interface ServerInvoke {
    formData(data: BinaryData | Record<string, any>): Data

    toData(data: Data): BinaryData | Record<string, any>

    invoke(data: Data, ctx?: Context): Promise<Data | void>
}

export interface ServerRouter {
    getName(): string

    getId(): number

    getInvoke(): Record<string, ServerInvoke>
}
